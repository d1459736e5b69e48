From 610d819b94f511e5bd315f9c8e1caa27272e2f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:10 +0000
Subject: [PATCH 01/55] fix: BlockQueue::Dequeue(list, force) re-checks the
 queue after each wakeup

---
 include/sol/util/block_queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..f686749 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -146,14 +146,14 @@ class BlockQueue {
 
     int i = 0;
     for (i = 0; i < num; ++i) {
-      if (this->elem_num_ == 0) {
-        if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
+      if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
+        // wait again after a spurious wakeup or if another consumer was faster
+        while (this->elem_num_ == 0) {
           this->nonfull_.notify_all();
           this->nonempty_.wait();
-        } else {
-          break;
         }
       }
+      if (this->elem_num_ == 0) break;
       elem_list[i] = this->elems_[this->head_];
       this->head_ = (this->head_ + 1) % this->queue_size_;
       --this->elem_num_;
-- 
2.43.0


From d158a24f32293d86782bd34e2c53f7f79e6b7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:10 +0000
Subject: [PATCH 02/55] fix: ~DataIter no longer blocks on a batch the reader
 took first

---
 include/sol/util/block_queue.h | 18 ++++++++++++++++++
 src/sol/pario/data_iter.cc     |  7 +++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index f686749..8617f68 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  Dequeue an element without blocking
+  ///
+  /// \param elem storage to save the element
+  ///
+  /// \return true if an element was dequeued, false if the queue was empty
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool has_elem = this->elem_num_ > 0;
+    if (has_elem) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return has_elem;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..c2f9deb 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -27,14 +27,13 @@ DataIter::DataIter(int batch_size, int batch_num)
 
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
-  // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  // clear mini_batch_factory_, a running reader may take the last one first
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 
   // send exit signal to readers
-  this->mini_batch_factory_.Enqueue(mb);
+  this->mini_batch_factory_.Enqueue(nullptr);
 
   // clear mini_batch_buf_
   int reader_count = static_cast<int>(this->readers_.size());
-- 
2.43.0


From e4cf5c1097267968d1c4e6cb7a6459d00f7a9661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:48 +0000
Subject: [PATCH 03/55] fix: BinaryReader reports a record without feature
 number as an error

---
 src/sol/pario/binary_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..a73a814 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -32,7 +32,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
-- 
2.43.0


From 9b65712a0f8c356788f4e06ada9a0c78429a0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:54 +0000
Subject: [PATCH 04/55] fix: ReadLine reports an I/O error inside a long line
 and refuses zero bytes in text

---
 src/sol/pario/file_reader.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 038cbb4..8302440 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -106,10 +106,20 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
     }
   }
   while (strrchr(dst, '\n') == nullptr) {
+    len = int(strlen(dst));
+    if (len + 1 < dst_len) {
+      // the line ended early: end of file, or a zero byte in the text
+      if (feof(this->file_) && len > 0) break;
+      fprintf(stderr, "Error %d: invalid line\n", Status_Invalid_Format);
+      return Status_Invalid_Format;
+    }
     dst_len *= 2;
     dst = (char*)realloc(dst, dst_len);
-    len = int(strlen(dst));
-    if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;
+    if (fgets(dst + len, dst_len - len, this->file_) == nullptr) {
+      if (feof(this->file_)) break;
+      fprintf(stderr, "Error %d: read line failed\n", Status_IO_Error);
+      return Status_IO_Error;
+    }
   }
   return Status_OK;
 }
-- 
2.43.0


From 92835e8ceaa77e643f36192c703f3bfb69ec2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:54 +0000
Subject: [PATCH 05/55] fix: FileReader::Read reports a file that ends inside
 the requested bytes as an error

---
 src/sol/pario/file_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 8302440..a2c5786 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -81,7 +81,7 @@ int FileReader::Read(char* dst, size_t length) {
   size_t read_len = fread(dst, 1, length, this->file_);
   if (read_len == length) {
     return Status_OK;
-  } else if (feof(this->file_)) {
+  } else if (read_len == 0 && feof(this->file_)) {
     return Status_EndOfFile;
   } else {
     cerr << "Error " << Status_IO_Error << ": only " << read_len
-- 
2.43.0


From ab6dd0b215ed8af17c93e302a03c1ef987394675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:54 +0000
Subject: [PATCH 06/55] fix: CSVReader does not take the rest of an unreadable
 head line for a record

---
 include/sol/pario/csv_reader.h |  2 ++
 src/sol/pario/csv_reader.cc    | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/csv_reader.h b/include/sol/pario/csv_reader.h
index a3524e5..cbc7aa9 100755
--- a/include/sol/pario/csv_reader.h
+++ b/include/sol/pario/csv_reader.h
@@ -47,6 +47,8 @@ class SOL_EXPORTS CSVReader : public DataFileReader {
  protected:
   // dimension of data
   index_t feat_dim_;
+  // status of reading the head line
+  int head_status_;
 };  // class CSVReader
 
 }  // namespace pario
diff --git a/src/sol/pario/csv_reader.cc b/src/sol/pario/csv_reader.cc
index f70f79b..e5b65f8 100755
--- a/src/sol/pario/csv_reader.cc
+++ b/src/sol/pario/csv_reader.cc
@@ -14,13 +14,17 @@
 namespace sol {
 namespace pario {
 
-CSVReader::CSVReader() : DataFileReader() { this->feat_dim_ = 0; }
+CSVReader::CSVReader() : DataFileReader() {
+  this->feat_dim_ = 0;
+  this->head_status_ = Status_OK;
+}
 
 int CSVReader::Open(const std::string& path, const char* mode) {
   int ret = DataFileReader::Open(path);
   if (ret == Status_OK) {
     ret = this->LoadFeatDim();
   }
+  this->head_status_ = ret;
   this->is_good_ = ret == Status_OK ? true : false;
   return ret;
 }
@@ -28,10 +32,14 @@ int CSVReader::Open(const std::string& path, const char* mode) {
 void CSVReader::Rewind() {
   DataFileReader::Rewind();
   // read the first line for csv
-  this->file_reader_.ReadLine(this->read_buf_, this->read_buf_size_);
+  this->head_status_ =
+      this->file_reader_.ReadLine(this->read_buf_, this->read_buf_size_);
 }
 
 int CSVReader::Next(DataPoint& dst_data) {
+  // the next line is not a record unless the head was read completely
+  if (this->head_status_ != Status_OK) return Status_IO_Error;
+
   int ret = this->file_reader_.ReadLine(this->read_buf_, this->read_buf_size_);
   if (ret != Status_OK) return ret;
 
-- 
2.43.0


From 0cec04c941cba60b49c0ad211fc4eaa43df2ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 07/55] fix: BinaryReader refuses damaged lengths and index
 codes

---
 src/sol/pario/binary_reader.cc | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index a73a814..4cd5274 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -8,6 +8,7 @@
 
 #include "sol/pario/binary_reader.h"
 
+#include <algorithm>
 #include <cstdlib>
 
 #include "sol/pario/compress.h"
@@ -41,10 +42,27 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "read coded index length failed!\n");
       return Status_Invalid_Format;
     }
-    this->comp_codes_.resize(code_len);
-    ret = this->file_reader_.Read(this->comp_codes_.begin(), code_len);
-    if (ret != Status_OK) {
-      fprintf(stderr, "read coded index failed!\n");
+    // each index takes at least one byte
+    if (code_len < feat_num) {
+      fprintf(stderr, "coded index length is not correct!\n");
+      return Status_Invalid_Format;
+    }
+    // the length may be damaged: do not allocate more than the file provides
+    this->comp_codes_.clear();
+    while (this->comp_codes_.size() < code_len) {
+      size_t read_len = this->comp_codes_.size();
+      size_t block_len = (std::min)(code_len - read_len, size_t(1 << 20));
+      this->comp_codes_.resize(read_len + block_len);
+      ret = this->file_reader_.Read(this->comp_codes_.begin() + read_len,
+                                    block_len);
+      if (ret != Status_OK) {
+        fprintf(stderr, "read coded index failed!\n");
+        return Status_Invalid_Format;
+      }
+    }
+    // the last code must be complete
+    if (this->comp_codes_.back() & 128) {
+      fprintf(stderr, "coded index is not complete!\n");
       return Status_Invalid_Format;
     }
     dst_data.Resize(feat_num);
@@ -53,6 +71,12 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "decoded index number is not correct!\n");
       return Status_Invalid_Format;
     }
+    for (size_t i = 1; i < feat_num; ++i) {
+      if (dst_data.index(i) < dst_data.index(i - 1)) {
+        fprintf(stderr, "decoded indexes are not sorted!\n");
+        return Status_Invalid_Format;
+      }
+    }
 
     ret = this->file_reader_.Read((char*)dst_data.features().begin(),
                                   sizeof(real_t) * feat_num);
-- 
2.43.0


From 1ebd1d9d7f08aabd8ac8b9d6f225321b4987d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 08/55] fix: data writers report failed writes and closes

---
 include/sol/pario/data_writer.h |  6 ++++--
 include/sol/pario/file_writer.h |  4 +++-
 src/sol/pario/binary_writer.cc  |  2 +-
 src/sol/pario/csv_writer.cc     |  4 ++--
 src/sol/pario/file_writer.cc    | 15 +++++++++++----
 src/sol/pario/svm_writer.cc     |  2 +-
 6 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/sol/pario/data_writer.h b/include/sol/pario/data_writer.h
index 7a62e92..74351c9 100755
--- a/include/sol/pario/data_writer.h
+++ b/include/sol/pario/data_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS DataWriter {
   /// \return Status code,  Status_OK if succeed
   virtual int Open(const std::string& path, const char* mode = "w");
 
-  /// \brief Close the reader
-  virtual void Close() { this->file_writer_.Close(); }
+  /// \brief Close the writer
+  ///
+  /// \return Status code,  Status_OK if everything written has been stored
+  virtual int Close() { return this->file_writer_.Close(); }
 
   /// \brief  Check the status of the data handler
   ///
diff --git a/include/sol/pario/file_writer.h b/include/sol/pario/file_writer.h
index 3ef4d59..49816b3 100755
--- a/include/sol/pario/file_writer.h
+++ b/include/sol/pario/file_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS FileWriter {
 
   /**
    * \brief  Close the file
+   *
+   * \return Status code, Status_OK if everything written has been stored
    */
-  void Close();
+  int Close();
 
   /**
    * Good : Test if the file writer is good
diff --git a/src/sol/pario/binary_writer.cc b/src/sol/pario/binary_writer.cc
index b72afec..3d8d0c7 100755
--- a/src/sol/pario/binary_writer.cc
+++ b/src/sol/pario/binary_writer.cc
@@ -34,7 +34,7 @@ int BinaryWriter::Write(const DataPoint& data) {
     this->file_writer_.Write((char*)(data.features().begin()),
                              sizeof(real_t) * feat_num);
   }
-  return Status_OK;
+  return this->file_writer_.Good() ? Status_OK : Status_IO_Error;
 }
 
 RegisterDataWriter(BinaryWriter, "bin", "binary format data writer");
diff --git a/src/sol/pario/csv_writer.cc b/src/sol/pario/csv_writer.cc
index aae469c..cd5cd82 100755
--- a/src/sol/pario/csv_writer.cc
+++ b/src/sol/pario/csv_writer.cc
@@ -29,7 +29,7 @@ int CSVWriter::Write(const DataPoint& data) {
   for (; j < this->feat_dim_; ++j) this->file_writer_.Printf(",0");
 
   this->file_writer_.Printf("\n");
-  return Status_OK;
+  return this->file_writer_.Good() ? Status_OK : Status_IO_Error;
 }
 
 int CSVWriter::SetExtraInfo(const char* extra_info) {
@@ -44,7 +44,7 @@ int CSVWriter::SetExtraInfo(const char* extra_info) {
     oss << ",v" << i;
   }
   this->file_writer_.Printf("%s\n", oss.str().c_str());
-  return Status_OK;
+  return this->file_writer_.Good() ? Status_OK : Status_IO_Error;
 }
 
 RegisterDataWriter(CSVWriter, "csv", "csv format data writer");
diff --git a/src/sol/pario/file_writer.cc b/src/sol/pario/file_writer.cc
index d84a12f..92035aa 100755
--- a/src/sol/pario/file_writer.cc
+++ b/src/sol/pario/file_writer.cc
@@ -46,11 +46,18 @@ int FileWriter::Open(const char* path, const char* mode) {
   return Status_OK;
 }
 
-void FileWriter::Close() {
-  if (this->file_ != nullptr && this->file_ != stdout) {
-    fclose(this->file_);
+int FileWriter::Close() {
+  int ret = Status_OK;
+  if (this->file_ != nullptr) {
+    if (ferror(this->file_) != 0) ret = Status_IO_Error;
+    if (this->file_ != stdout) {
+      if (fclose(this->file_) != 0) ret = Status_IO_Error;
+    } else if (fflush(this->file_) != 0) {
+      ret = Status_IO_Error;
+    }
   }
   this->file_ = nullptr;
+  return ret;
 }
 
 bool FileWriter::Good() {
@@ -75,7 +82,7 @@ int FileWriter::Printf(const char* format, ...) {
   va_start(argptr, format);
 
   int ret = Status_OK;
-  if ((ret = vfprintf(this->file_, format, argptr)) < 0) {
+  if (vfprintf(this->file_, format, argptr) < 0) {
     fprintf(stderr, "vfprintf failed in %s:%d\n", __FILE__, __LINE__);
     ret = Status_IO_Error;
   }
diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..792be66 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -20,7 +20,7 @@ int SVMWriter::Write(const DataPoint &data) {
     this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
-  return Status_OK;
+  return this->file_writer_.Good() ? Status_OK : Status_IO_Error;
 }
 
 RegisterDataWriter(SVMWriter, "svm", "libsvm format data writer");
-- 
2.43.0


From b6d80ce8ecbc1ee529979a6fee365303d068063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 09/55] fix: SVMWriter prints indexes as unsigned

---
 src/sol/pario/svm_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index 792be66..59d87a4 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -17,7 +17,7 @@ int SVMWriter::Write(const DataPoint &data) {
   size_t feat_num = data.indexes().size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return this->file_writer_.Good() ? Status_OK : Status_IO_Error;
-- 
2.43.0


From 1be350b78f1e400982816def5775cbaed30ebdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:25 +0000
Subject: [PATCH 10/55] fix: data tools report failed writes instead of success

---
 src/sol/tools.cc | 43 +++++++++++++++++++++++++++----------------
 tools/concat.cc  | 10 +++++++---
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index bc24e56..b37ae44 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -95,6 +95,9 @@ int analyze(const string& src_path, const string& src_type,
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
   }
+  if ((ret = fw.Close()) != Status_OK) {
+    cerr << "Write analysis result to " << output_path << " failed\n";
+  }
   return ret;
 }
 
@@ -131,17 +134,20 @@ int convert(const string& src_path, const string& src_type,
         if (feat_dim < pt.dim()) feat_dim = pt.dim();
       }
     }
-    writer->SetExtraInfo((char*)(&feat_dim));
+    ret = writer->SetExtraInfo((char*)(&feat_dim));
     if (feat_dim == 0) {
       cerr << "figuring out feature dimension failed\n";
-      return Status_Invalid_Format;
+      ret = Status_Invalid_Format;
+    }
+    if (ret == Status_OK) ret = iter.AddReader(src_path, src_type);
+    if (ret != Status_OK) {
+      delete writer;
+      return ret;
     }
-    ret = iter.AddReader(src_path, src_type);
-    if (ret != Status_OK) return ret;
   }
   size_t data_num = 0;
   size_t print_thresh = 1000;
-  while (true) {
+  while (ret == Status_OK) {
     mb = iter.Next(mb);
     if (mb == nullptr) break;
     data_num += mb->size();
@@ -158,12 +164,13 @@ int convert(const string& src_path, const string& src_type,
       }
     }
 
-    for (int i = 0; i < mb->size(); ++i) {
-      writer->Write((*mb)[i]);
+    for (int i = 0; i < mb->size() && ret == Status_OK; ++i) {
+      ret = writer->Write((*mb)[i]);
     }
   }
   cout << data_num << " examples converted\n";
-  writer->Close();
+  int close_ret = writer->Close();
+  if (ret == Status_OK) ret = close_ret;
   delete writer;
   return ret;
 }
@@ -210,12 +217,13 @@ int shuffle(const std::string& src_path, const std::string& src_type,
   random_device rd;
   mt19937 g(rd());
   std::shuffle(data_list.begin(), data_list.end(), g);
-  writer->SetExtraInfo((char*)(&feat_dim));
+  ret = writer->SetExtraInfo((char*)(&feat_dim));
   for (auto& data : data_list) {
-    writer->Write(*data);
+    if (ret == Status_OK) ret = writer->Write(*data);
     delete data;
   }
-  writer->Close();
+  int close_ret = writer->Close();
+  if (ret == Status_OK) ret = close_ret;
   delete writer;
   return ret;
 }
@@ -271,16 +279,19 @@ int split(const string& src_path, const string& src_type, int fold_num,
       break;
     }
     fprintf(stderr, "write fold %d to %s\n", i, output_path.str().c_str());
-    writer->SetExtraInfo((char*)(&feat_dim));
+    ret = writer->SetExtraInfo((char*)(&feat_dim));
 
-    for (; data_idx < end_idx && data_idx < data_num; ++data_idx) {
-      writer->Write(*(data_list[data_idx]));
-      delete data_list[data_idx];
+    for (; data_idx < end_idx && data_idx < data_num && ret == Status_OK;
+         ++data_idx) {
+      ret = writer->Write(*(data_list[data_idx]));
     }
     end_idx += data_split_num;
-    writer->Close();
+    int close_ret = writer->Close();
+    if (ret == Status_OK) ret = close_ret;
     delete writer;
+    if (ret != Status_OK) break;
   }
+  for (auto& data : data_list) delete data;
   return ret;
 }
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index a4345f8..4ac8beb 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -70,7 +70,8 @@ int main(int argc, char** argv) {
       }
     }
     cout << "total dimension: " << feat_dim << "\n";
-    writer->SetExtraInfo((char*)(&feat_dim));
+    ret = writer->SetExtraInfo((char*)(&feat_dim));
+    if (ret != Status_OK) return ret;
   }
 
   size_t data_num = 0;
@@ -84,8 +85,10 @@ int main(int argc, char** argv) {
     if (mb == nullptr) break;
     data_num += mb->size();
     for (int i = 0; i < mb->size(); ++i) {
-      writer->Write((*mb)[i]);
+      ret = writer->Write((*mb)[i]);
+      if (ret != Status_OK) break;
     }
+    if (ret != Status_OK) break;
 
     if (data_num > print_thresh) {
       cout << data_num << " examples concatenated\r";
@@ -93,7 +96,8 @@ int main(int argc, char** argv) {
     }
   }
 
-  writer->Close();
+  int close_ret = writer->Close();
+  if (ret == Status_OK) ret = close_ret;
   delete writer;
   cout << data_num << " examples concatenated to " << dst_path << "\n";
   return ret;
-- 
2.43.0


From 8f3e4859658a27fe47ccc9d851d5a93837fc5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:25 +0000
Subject: [PATCH 11/55] fix: analyze reports dimension 0 for data without
 features

---
 src/sol/tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index b37ae44..447132c 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -86,7 +86,7 @@ int analyze(const string& src_path, const string& src_type,
   }
   fw.Printf("data number  : %lu\n", data_num);
   fw.Printf("feat number  : %lu\n", feat_num);
-  fw.Printf("dimension    : %lu\n", feat_dim - 1);
+  fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
   if (feat_dim > 0) {
-- 
2.43.0


From 1678e2cfd7718ecfacc57e553cf84d46009574de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:47 +0000
Subject: [PATCH 12/55] fix: data tools report a source that could not be read
 completely

---
 include/sol/pario/data_iter.h      |  8 ++++++++
 include/sol/pario/data_read_task.h |  4 ++++
 src/sol/pario/data_iter.cc         |  4 ++++
 src/sol/pario/data_read_task.cc    |  4 +++-
 src/sol/tools.cc                   | 13 +++++++++++--
 tools/concat.cc                    |  1 +
 6 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/sol/pario/data_iter.h b/include/sol/pario/data_iter.h
index 231b005..4dde3a8 100755
--- a/include/sol/pario/data_iter.h
+++ b/include/sol/pario/data_iter.h
@@ -48,6 +48,12 @@ class SOL_EXPORTS DataIter {
   /// \return
   virtual MiniBatch* Next(MiniBatch* prev_batch = nullptr);
 
+  /// \brief  status of the sources iterated so far
+  ///
+  /// \return Status_OK, or the error of the first source that could not be
+  /// read completely
+  int status() const { return this->status_; }
+
  protected:
   // mini-batch size
   int batch_size_;
@@ -59,6 +65,8 @@ class SOL_EXPORTS DataIter {
   std::vector<std::shared_ptr<DataReadTask>> readers_;
   // index of running reader
   int running_reader_idx_;
+  // status of the finished readers
+  int status_;
 };  // class DataIter
 }  // namespace pario
 }  // namespace sol
diff --git a/include/sol/pario/data_read_task.h b/include/sol/pario/data_read_task.h
index 7604cf8..2457a14 100755
--- a/include/sol/pario/data_read_task.h
+++ b/include/sol/pario/data_read_task.h
@@ -34,6 +34,9 @@ class DataReadTask : public ThreadTask {
  public:
   inline bool Good() { return this->reader_ != nullptr; }
 
+  /// \brief  status of the finished task, Status_OK if nothing failed
+  inline int status() const { return this->status_; }
+
  protected:
   virtual void run();
 
@@ -42,6 +45,7 @@ class DataReadTask : public ThreadTask {
   BlockQueue<MiniBatch*>& mini_batch_factory_;
   BlockQueue<MiniBatch*>& mini_batch_buf_;
   int pass_num_;
+  int status_;
 };
 
 }  // namespace pario
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index c2f9deb..664dc6d 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -23,6 +23,7 @@ DataIter::DataIter(int batch_size, int batch_num)
   // signal to start next reader
   this->mini_batch_buf_.Enqueue(nullptr);
   this->running_reader_idx_ = -1;
+  this->status_ = Status_OK;
 }
 
 DataIter::~DataIter() {
@@ -84,6 +85,9 @@ MiniBatch* DataIter::Next(MiniBatch* prev_batch) {
   do {
     el = this->mini_batch_buf_.Dequeue();
     if (el == nullptr) {
+      if (this->running_reader_idx_ >= 0 && this->status_ == Status_OK) {
+        this->status_ = this->readers_[this->running_reader_idx_]->status();
+      }
       if (this->running_reader_idx_ + 1 <
           static_cast<int>(this->readers_.size())) {
         ++this->running_reader_idx_;
diff --git a/src/sol/pario/data_read_task.cc b/src/sol/pario/data_read_task.cc
index bdd2a1b..bd29e94 100644
--- a/src/sol/pario/data_read_task.cc
+++ b/src/sol/pario/data_read_task.cc
@@ -16,7 +16,8 @@ DataReadTask::DataReadTask(const std::string& path, const std::string& dtype,
                            BlockQueue<MiniBatch*>& mini_batch_buf, int pass_num)
     : mini_batch_factory_(mini_batch_factory),
       mini_batch_buf_(mini_batch_buf),
-      pass_num_(pass_num) {
+      pass_num_(pass_num),
+      status_(Status_OK) {
   DataReader* reader = DataReader::Create(dtype);
   if (reader != nullptr) {
     if (reader->Open(path) != Status_OK) {
@@ -54,6 +55,7 @@ void DataReadTask::run() {
     this->mini_batch_buf_.Enqueue(mini_batch);
   }
   reader->Close();
+  this->status_ = status;
   this->mini_batch_buf_.Enqueue(nullptr);
 }
 
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 447132c..7304d70 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -74,6 +74,7 @@ int analyze(const string& src_path, const string& src_type,
     }
   }
   cout << data_num << " examples analyzed\n";
+  if ((ret = data_iter.status()) != Status_OK) return ret;
 
   size_t valid_dim = 0;
   for (size_t i = 0; i < feat_flags.size(); i++) {
@@ -134,7 +135,8 @@ int convert(const string& src_path, const string& src_type,
         if (feat_dim < pt.dim()) feat_dim = pt.dim();
       }
     }
-    ret = writer->SetExtraInfo((char*)(&feat_dim));
+    ret = iter.status();
+    if (ret == Status_OK) ret = writer->SetExtraInfo((char*)(&feat_dim));
     if (feat_dim == 0) {
       cerr << "figuring out feature dimension failed\n";
       ret = Status_Invalid_Format;
@@ -168,6 +170,7 @@ int convert(const string& src_path, const string& src_type,
       ret = writer->Write((*mb)[i]);
     }
   }
+  if (ret == Status_OK) ret = iter.status();
   cout << data_num << " examples converted\n";
   int close_ret = writer->Close();
   if (ret == Status_OK) ret = close_ret;
@@ -217,7 +220,8 @@ int shuffle(const std::string& src_path, const std::string& src_type,
   random_device rd;
   mt19937 g(rd());
   std::shuffle(data_list.begin(), data_list.end(), g);
-  ret = writer->SetExtraInfo((char*)(&feat_dim));
+  ret = iter.status();
+  if (ret == Status_OK) ret = writer->SetExtraInfo((char*)(&feat_dim));
   for (auto& data : data_list) {
     if (ret == Status_OK) ret = writer->Write(*data);
     delete data;
@@ -253,6 +257,11 @@ int split(const string& src_path, const string& src_type, int fold_num,
   }
 
   cout << data_num << " examples loaded\n";
+  ret = iter.status();
+  if (ret != Status_OK) {
+    for (auto& data : data_list) delete data;
+    return ret;
+  }
   if (data_num == 0) return ret;
 
   if (shuffle) {
diff --git a/tools/concat.cc b/tools/concat.cc
index 4ac8beb..f7405ed 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -96,6 +96,7 @@ int main(int argc, char** argv) {
     }
   }
 
+  if (ret == Status_OK) ret = iter.status();
   int close_ret = writer->Close();
   if (ret == Status_OK) ret = close_ret;
   delete writer;
-- 
2.43.0


From 16d3a9219c999a7ddc710dab3a0c37f4e56db1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 13/55] fix: saving a model reports failed writes

---
 src/sol/model/model.cc | 4 ++++
 tools/sol_train.cc     | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..0971450 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -173,6 +173,10 @@ int Model::Save(const string& path) const {
   this->GetModelParam(out_file);
 
   out_file.close();
+  if (!out_file) {
+    cerr << "write model to " << path << " failed\n";
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4087431..14b8aaf 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -94,7 +94,8 @@ int train(cmdline::parser& parser) {
 
   // save model
   if (!output_path.empty()) {
-    model->Save(output_path);
+    ret = model->Save(output_path);
+    if (ret != Status_OK) return ret;
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-- 
2.43.0


From 4aa7f66db28c4c9a2eae9d9a13e35297dbd8c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 14/55] fix: restoring a model refuses incomplete files

---
 include/sol/math/matrix.h     | 15 +++++++++++++--
 src/sol/model/model.cc        | 36 +++++++++++++++++++----------------
 src/sol/model/online_model.cc |  3 ++-
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..79a490d 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -6,7 +6,10 @@
 #ifndef SOL_MATH_MATRIX_H__
 #define SOL_MATH_MATRIX_H__
 
+#include <cstdlib>
+#include <istream>
 #include <limits>
+#include <string>
 
 #include <sol/math/shape.h>
 #include <sol/math/matrix_storage.h>
@@ -208,10 +211,18 @@ template <typename DType>
 std::istream& operator>>(std::istream& is, Matrix<DType>& mat) {
   const Shape<2>& s2d = *(mat.shape_);
   DType* pdata = mat.data();
+  std::string token;
   for (size_t i = 0; i < s2d[0]; ++i) {
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '[');
-    for (size_t j = 0; j < s2d[1]; ++j) is >> *pdata++;
-    is.ignore((std::numeric_limits<std::streamsize>::max)(), ']');
+    for (size_t j = 0; j < s2d[1]; ++j) {
+      is >> token;
+      // strtod also reads nan and inf as they are printed
+      char* endptr = nullptr;
+      *pdata++ = DType(strtod(token.c_str(), &endptr));
+      if (token.empty() || *endptr != '\0') is.setstate(std::ios::failbit);
+    }
+    is >> token;
+    if (token != "]") is.setstate(std::ios::failbit);
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '\n');
   }
   return is;
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 0971450..26a1db2 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -196,42 +196,46 @@ Model* Model::Load(const string& path) {
   }
   if (ret == Status_OK) {
     ostringstream model_info;
-    while (line != "model parameters:") {
-      getline(in_file, line);
+    while (line != "model parameters:" && getline(in_file, line)) {
       model_info << line;
     }
     Json::Value root;
     Json::Reader reader;
-    if (reader.parse(model_info.str(), root) == false) {
+    if (line != "model parameters:" ||
+        reader.parse(model_info.str(), root) == false) {
       cerr << "parse model file " << path << " failed\n";
       ret = Status_Invalid_Format;
     }
 
     if (ret == Status_OK) {
-      string cls_name = root.get("model", "").asString();
-      int cls_num = root.get("cls_num", "0").asInt();
-      model = Model::Create(cls_name, cls_num);
-      if (model == nullptr) {
-        cerr << "create model failed: no model named " << cls_name << "\n";
-        ret = Status_Invalid_Format;
-      } else {
-        try {
+      try {
+        string cls_name = root.get("model", "").asString();
+        int cls_num = root.get("cls_num", "0").asInt();
+        model = Model::Create(cls_name, cls_num);
+        if (model == nullptr) {
+          cerr << "create model failed: no model named " << cls_name << "\n";
+          ret = Status_Invalid_Format;
+        } else {
           ret = model->SetModelInfo(root);
         }
-        catch (invalid_argument& err) {
-          cerr << "set model parameter failed: " << err.what() << "\n";
-          ret = Status_Invalid_Argument;
-        }
+      }
+      catch (exception& err) {
+        cerr << "set model parameter failed: " << err.what() << "\n";
+        ret = Status_Invalid_Argument;
       }
     }
   }
 
   if (ret == Status_OK) {
     ret = model->SetModelParam(in_file);
+    // all parameters must have been read
+    if (ret == Status_OK && !in_file) {
+      cerr << "load model parameters from " << path << " failed\n";
+      ret = Status_Invalid_Format;
+    }
   }
   if (ret != Status_OK) {
     DeletePointer(model);
-    DeletePointer(model);
   }
   in_file.close();
   return model;
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 94384bf..b8f7507 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -213,7 +213,8 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
 }
 
 int OnlineModel::SetModelInfo(const Json::Value& root) {
-  Model::SetModelInfo(root);
+  int ret = Model::SetModelInfo(root);
+  if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
   if (online_settings.isNull()) {
     cerr << "no online info found for online model\n";
-- 
2.43.0


From bff3671255fb9b5dfeb6f674e217fbddd5998f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 15/55] fix: models are saved with enough digits to restore the
 same weights

---
 src/sol/model/model.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 26a1db2..c6df41d 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 #include "sol/util/util.h"
@@ -170,6 +171,8 @@ int Model::Save(const string& path) const {
   writer.write(out_file, root);
 
   out_file << "model parameters:\n";
+  // enough digits to restore the same values
+  out_file << setprecision((numeric_limits<real_t>::max_digits10));
   this->GetModelParam(out_file);
 
   out_file.close();
-- 
2.43.0


From 34d57f352d4a75647da44916b458d3c0fd2eb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 16/55] fix: saving a model finalizes the weights of the last
 training

---
 include/sol/model/model.h | 2 +-
 src/sol/model/model.cc    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6bd32cc..6475631 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -82,7 +82,7 @@ class SOL_EXPORTS Model {
   /// \param path path to save the model
   ///
   /// \return status code, 0 if saved successfully
-  int Save(const std::string &path) const;
+  int Save(const std::string &path);
 
   /// \brief  load model from file
   ///
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index c6df41d..6b6c876 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -158,7 +158,9 @@ void Model::BeginTrain() {
   this->require_reinit_ = false;
 }
 
-int Model::Save(const string& path) const {
+int Model::Save(const string& path) {
+  if (this->model_updated_) this->EndTrain();
+
   ofstream out_file(path.c_str(), ios::out);
   if (!out_file) {
     cerr << "open file " << path << " failed\n";
-- 
2.43.0


From a225f29bf88327e363b50d13a758cfa32cdf7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 17/55] fix: fobos-l1 and ada-fobos-l1 finalize models larger
 than the training data

---
 include/sol/model/regularizer.h | 5 +++++
 src/sol/model/olm/ada_fobos.cc  | 1 +
 src/sol/model/olm/ogd.cc        | 1 +
 src/sol/model/regularizer.cc    | 9 ++++++---
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..f1dbd6a 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -77,6 +77,11 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
 
+  /// \brief  make sure the update times cover the dimension of the model
+  ///
+  /// \param dim dimension of the model
+  void UpdateDim(size_t dim);
+
  protected:
   real_t initial_t_;
   // record the last update time of each dimension
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..e5d0e61 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -114,6 +114,7 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void AdaFOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.UpdateDim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) = expr::truncate(
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..9ff7805 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -157,6 +157,7 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.UpdateDim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..be1e5ac 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -65,10 +65,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->UpdateDim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::UpdateDim(size_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From f8ab702f8e77d1f0ff1084f2c50edd1c2a34c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 18/55] fix: active_smoothness below one is saved with the
 model

---
 src/sol/model/online_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index b8f7507..aac47a0 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -204,7 +204,7 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
   root["online"]["t"] = this->cur_iter_num_;
   root["online"]["dim"] = this->dim_;
   root["online"]["lazy_update"] = this->lazy_update_ ? "true" : "false";
-  if (this->active_smoothness_ >= 1) {
+  if (this->active_smoothness_ > 0) {
     root["online"]["active_smoothness"] = this->active_smoothness_;
   }
   if (this->cost_sensitive_learning_) {
-- 
2.43.0


From 11fed7f9892d9454a4fed311b42c41b7d98e1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 19/55] fix: a fofs model without feature number can be
 restored

---
 src/sol/model/olm/fofs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..ee17229 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -108,7 +108,8 @@ void FOFS::GetModelInfo(Json::Value& root) const {
   OnlineLinearModel::GetModelInfo(root);
   root["online"]["eta"] = this->eta_;
   root["online"]["lambda"] = this->lambda_;
-  root["online"]["B"] = this->B_;
+  // zero (all features) is the default and no valid option
+  if (this->B_ > 0) root["online"]["B"] = this->B_;
 }
 
 RegisterModel(FOFS, "fofs", "First Order Online Feature Selection");
-- 
2.43.0


From 35037ee0408ea6c7eb5b356bf4ef964810dffbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:43 +0000
Subject: [PATCH 20/55] fix: a feature filter that is unreadable, empty or
 malformed is refused

---
 src/sol/model/model.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 6b6c876..9f6526d 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -347,7 +347,7 @@ int Model::LoadPreSelFeatures(const string& path) {
     return Status_IO_Error;
   }
 
-  index_t index = 0;
+  int index = 0;
   string line;
   vector<index_t> indexes;
   // load feature indexes
@@ -357,12 +357,25 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
+    try {
+      index = stoi(line);
+    }
+    catch (logic_error&) {  // invalid_argument or out_of_range
+      index = 0;
+    }
     if (index <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
-    indexes.push_back(index);
+    indexes.push_back(index_t(index));
+  }
+  if (in_file.bad()) {
+    cerr << "read file " << path << " failed!\n";
+    return Status_IO_Error;
+  }
+  if (indexes.empty()) {
+    cerr << "no feature index found in " << path << "!\n";
+    return Status_Invalid_Format;
   }
 
   // find the max index
-- 
2.43.0


From cb52a620fdb8438f1baeac5d678abe50ed9e4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:43 +0000
Subject: [PATCH 21/55] fix: sol_SetModelParameter refuses numbers that are out
 of range

---
 src/sol/c_api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 65ace7c..8d61791 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -65,7 +65,7 @@ int sol_SetModelParameter(void* model, const char* param_name,
   try {
     m->SetParameter(param_name, param_val);
   }
-  catch (invalid_argument& err) {
+  catch (logic_error& err) {  // invalid_argument or out_of_range
     fprintf(stderr, "%s\n", err.what());
     return Status_Invalid_Argument;
   }
-- 
2.43.0


From a015123fc98968b3edaa07e5f70ab0b3525f40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:33 +0000
Subject: [PATCH 22/55] fix: feature values with many digits are parsed
 correctly

ParseFloat accumulated the digits in an int, which overflows with ten or more
of them, and dropped everything behind the seventh decimal.
---
 include/sol/pario/numeric_parser.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..6f6826b 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -114,14 +114,15 @@ class SOL_EXPORTS NumericParser {
       p++;
     }
 
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    // an int would overflow with ten or more digits
+    double acc = 0;
+    while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
-      while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
+      while (*p >= '0' && *p <= '9' && num_dec != 16) {
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
       while (*p >= '0' && *p <= '9') p++;
@@ -144,7 +145,7 @@ class SOL_EXPORTS NumericParser {
     if (exp_acc == 0) {
       return float(s * acc);
     } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+      return float(s * acc * pow(10.0, exp_acc));
     }
   }
 
-- 
2.43.0


From 21fd553fb4a5fb17139c6a745b8cd426a58129a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:59 +0000
Subject: [PATCH 23/55] fix: finalizing a lazily regularized model twice
 regularizes it only once

Testing, predicting and saving apply the pending truncation of stg, fobos-l1
and ada-fobos-l1, but did not record it, so that it was applied again by the
next finalization or training step.
---
 include/sol/model/regularizer.h | 3 +++
 src/sol/model/olm/ada_fobos.cc  | 6 +++++-
 src/sol/model/olm/ogd.cc        | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index f1dbd6a..54a0ca2 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -77,6 +77,9 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
 
+  /// \brief  record that all dimensions have been regularized up to time t
+  void set_last_update_time(real_t t) { this->last_update_time_ = t; }
+
   /// \brief  make sure the update times cover the dimension of the model
   ///
   /// \param dim dimension of the model
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index e5d0e61..38c0d81 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -120,8 +120,12 @@ void AdaFOBOS_L1::EndTrain() {
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                          (t - l1_.last_update_time()[0]) /
+                                          H_[c][0]);
   }
+  // the pending regularization has been applied
+  l1_.set_last_update_time(t);
   AdaFOBOS::EndTrain();
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 9ff7805..98fd158 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -117,6 +117,8 @@ void STG::EndTrain() {
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
   }
+  // the pending truncation has been applied
+  last_trunc_time_ = t;
   OGD::EndTrain();
 }
 
@@ -162,8 +164,11 @@ void FOBOS_L1::EndTrain() {
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]));
   }
+  // the pending regularization has been applied
+  l1_.set_last_update_time(t);
   OGD::EndTrain();
 }
 
-- 
2.43.0


From 4fa20b23545506d52cfd23b2f4077cf79ce17b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:03 +0000
Subject: [PATCH 24/55] fix: testing an ada-rda model does not change its
 further training

The bias was never set while training, only scaled, but finalizing the model
set it, so that a test or save between two training calls changed the result
of the second.
---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..6be84c9 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -61,7 +61,7 @@ void AdaRDA::Update(const pario::DataPoint& dp, const float*, float loss) {
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 }
 
@@ -254,7 +254,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
-- 
2.43.0


From 29eaca4f2d8f38e416d27a0fabaee8baf6ba7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:12 +0000
Subject: [PATCH 25/55] fix: testing a sop model does not change its further
 training

The bias was only set when the model was finalized, so that a test or save
between two training calls changed the result of the second.
---
 src/sol/model/olm/sop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index d602163..07af2c8 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -56,6 +56,8 @@ label_t SOP::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_ + L2(x));
+    // bias
+    w(c)[0] = v(c)[0] / (a_ + X_[0]);
   }
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
-- 
2.43.0


From ce7d5748eaf5ba5c95de26d15782df33a895315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:45 +0000
Subject: [PATCH 26/55] fix: adarda-ofs sets the weights of a feature selected
 again for all classes

In training the weights were only set for classes with a gradient, while
finalizing the model set all, so that a test or save between two training
calls changed the result of the second.
---
 src/sol/model/olm/ada_rda.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 6be84c9..1168a9d 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -247,11 +247,12 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
   }
   //update weights
   for (int c = 0; c < this->clf_num_; ++c) {
-    if (g(c) == 0) continue;
-
-    ut_[c] += g(c) * x;
-    ut_[c][0] += g(c);
+    if (g(c) != 0) {
+      ut_[c] += g(c) * x;
+      ut_[c][0] += g(c);
+    }
 
+    // features may be selected again for all classes
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
     w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
-- 
2.43.0


From 7e5f991bfc8fe934df06c838d03a90db58622486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 27/55] fix: model parameters are saved with enough digits to
 restore the same value

---
 external/json/jsoncpp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/external/json/jsoncpp.cpp b/external/json/jsoncpp.cpp
index 5006623..9de35ae 100644
--- a/external/json/jsoncpp.cpp
+++ b/external/json/jsoncpp.cpp
@@ -3999,6 +3999,11 @@ JSONCPP_STRING valueToString(double value, bool useSpecialFloats,
   // concepts of reals and integers.
   if (isfinite(value)) {
     len = snprintf(buffer, sizeof(buffer), formatString, value);
+    // the values are single precision: use more digits if these do not restore
+    // the same value
+    if (float(strtod(buffer, NULL)) != float(value)) {
+      len = snprintf(buffer, sizeof(buffer), "%.9g", value);
+    }
   } else {
     // IEEE standard states that NaN values will not compare to themselves
     if (value != value) {
-- 
2.43.0


From e44a32e5915a1b9f44c34f5cc817539e36125a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:44 +0000
Subject: [PATCH 28/55] fix: model parameters are saved with enough digits:
 include for strtod

---
 external/json/jsoncpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/external/json/jsoncpp.cpp b/external/json/jsoncpp.cpp
index 9de35ae..3fe4a5d 100644
--- a/external/json/jsoncpp.cpp
+++ b/external/json/jsoncpp.cpp
@@ -188,6 +188,7 @@ static inline void fixNumericLocale(char* begin, char* end) {
 #endif  // if !defined(JSON_IS_AMALGAMATION)
 #include <utility>
 #include <cstdio>
+#include <cstdlib>
 #include <cassert>
 #include <cstring>
 #include <istream>
-- 
2.43.0


From 091f36445b7ece9d5684b3b0b438b79949c596ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:44 +0000
Subject: [PATCH 29/55] fix: normalizing a sample whose features are all
 filtered out gives zeros, not NaN

---
 src/sol/model/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 9f6526d..49842d7 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -315,11 +315,11 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        if (norm > 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm > 0) x.data() /= sqrt(norm);
       default:
         break;
     }
-- 
2.43.0


From 0247c83d5d533984e36b45a8977e064fe4c0e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 30/55] fix: sorting the features of a sample neither takes
 quadratic time nor overflows the stack

---
 src/sol/pario/data_point.cc | 69 +++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/sol/pario/data_point.cc b/src/sol/pario/data_point.cc
index 71aa345..c4c9c0f 100755
--- a/src/sol/pario/data_point.cc
+++ b/src/sol/pario/data_point.cc
@@ -50,38 +50,49 @@ bool DataPoint::IsSorted() const {
 
 template <typename T1, typename T2>
 void QuickSort(T1 *a, T2 *b, size_t low, size_t high) {  // from small to great
-  size_t i = low;
-  size_t j = high;
-  T1 temp = a[low];  // select the first element as the indicator
-  T2 temp_ind = b[low];
-
-  while (i < j) {
-    while ((i < j) && (temp < a[j])) {  // scan right side
-      j--;
-    }
-    if (i < j) {
-      a[i] = a[j];
-      b[i] = b[j];
-      i++;
-    }
+  while (low < high) {
+    // select the middle element as the indicator, (nearly) sorted lists would
+    // be the worst case of the first one
+    size_t mid = low + (high - low) / 2;
+    std::swap(a[low], a[mid]);
+    std::swap(b[low], b[mid]);
 
-    while (i < j && (a[i] < temp)) {  // scan left side
-      i++;
-    }
-    if (i < j) {
-      a[j] = a[i];
-      b[j] = b[i];
-      j--;
+    size_t i = low;
+    size_t j = high;
+    T1 temp = a[low];
+    T2 temp_ind = b[low];
+
+    while (i < j) {
+      while ((i < j) && (temp < a[j])) {  // scan right side
+        j--;
+      }
+      if (i < j) {
+        a[i] = a[j];
+        b[i] = b[j];
+        i++;
+      }
+
+      while (i < j && (a[i] < temp)) {  // scan left side
+        i++;
+      }
+      if (i < j) {
+        a[j] = a[i];
+        b[j] = b[i];
+        j--;
+      }
     }
-  }
-  a[i] = temp;
-  b[i] = temp_ind;
+    a[i] = temp;
+    b[i] = temp_ind;
 
-  if (low < i) {
-    QuickSort(a, b, low, i - 1);  // sort left subset
-  }
-  if (i < high) {
-    QuickSort(a, b, j + 1, high);  // sort right subset
+    // recurse into the smaller part only to keep the recursion shallow
+    if (i - low < high - i) {
+      if (low < i) QuickSort(a, b, low, i - 1);
+      low = i + 1;
+    } else {
+      if (i < high) QuickSort(a, b, i + 1, high);
+      if (i == low) break;
+      high = i - 1;
+    }
   }
 }
 
-- 
2.43.0


From ac2105ad94e5f619cc7b9fc8a76565fa8c4dfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 31/55] fix: lsol_c prints the accuracy and survives a model
 that cannot be loaded

---
 tools/lsol_c.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 9c67472..ff40705 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -90,8 +90,8 @@ int train(cmdline::parser& parser) {
   }
 
   if (ret == Status_OK) {
-    float accu = sol_Train(model, data_iter);
-    fprintf(stdout, "training accuracy: %.4f\n", accu);
+    float err_rate = sol_Train(model, data_iter);
+    fprintf(stdout, "training accuracy: %.4f\n", 1.f - err_rate);
 
     // save model
     if (parser.exist("output")) {
@@ -116,7 +116,7 @@ int test(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
-  if (parser.exist("filter")) {
+  if (ret == Status_OK && parser.exist("filter")) {
     ret = sol_SetModelParameter(model, "filter",
                                 parser.get<string>("filter").c_str());
   }
@@ -134,8 +134,8 @@ int test(cmdline::parser& parser) {
       output_path = parser.get<string>("output").c_str();
     }
 
-    float accu = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", accu);
+    float err_rate = sol_Test(model, data_iter, output_path);
+    fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0


From db6eb210e6061c815b2e6bb6d761664131d4d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 32/55] fix: sol_train and sol_test refuse parameters that are
 out of range

---
 tools/sol_test.cc  | 2 +-
 tools/sol_train.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/sol_test.cc b/tools/sol_test.cc
index 520f845..16da804 100644
--- a/tools/sol_test.cc
+++ b/tools/sol_test.cc
@@ -58,7 +58,7 @@ int test(cmdline::parser& parser) {
     try {
       model->SetParameter("filter", parser.get<string>("filter"));
     }
-    catch (invalid_argument& err) {
+    catch (logic_error& err) {
       fprintf(stderr, "%s\n", err.what());
       return Status_Invalid_Argument;
     }
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 14b8aaf..d2332b7 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -71,7 +71,7 @@ int train(cmdline::parser& parser) {
       try {
         model->SetParameter(strip(opt_pair[0]), strip(opt_pair[1]));
       }
-      catch (invalid_argument& err) {
+      catch (logic_error& err) {
         fprintf(stderr, "%s\n", err.what());
         return Status_Invalid_Argument;
       }
-- 
2.43.0


From 3968e3b4a284095381c2fc496fabe622dc3b8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 33/55] fix: sol_train and sol_test report unreadable sources
 and unwritten results

---
 tools/sol_test.cc  | 6 +++++-
 tools/sol_train.cc | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/sol_test.cc b/tools/sol_test.cc
index 16da804..5491dbe 100644
--- a/tools/sol_test.cc
+++ b/tools/sol_test.cc
@@ -75,13 +75,17 @@ int test(cmdline::parser& parser) {
     ofstream out_file(output_path.c_str(), ios::out);
     err_rate = model->Test(iter, &out_file);
     out_file.close();
+    if (!out_file) {
+      fprintf(stderr, "writing %s failed!\n", output_path.c_str());
+      ret = Status_IO_Error;
+    }
   } else {
     err_rate = model->Test(iter, nullptr);
   }
   double end_time = sol::get_current_time();
   fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   fprintf(stdout, "test time: %.3f seconds\n", end_time - start_time);
-  return Status_OK;
+  return ret == Status_OK ? iter.status() : ret;
 }
 
 void getparser(int argc, char** argv, cmdline::parser& parser) {
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index d2332b7..69acdce 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -99,7 +99,7 @@ int train(cmdline::parser& parser) {
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-  return Status_OK;
+  return iter.status();
 }
 
 /// \brief  show classes of a group in a group
-- 
2.43.0


From 88c1e5f4e12cabce8928a687779f7e0a287968cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:49 +0000
Subject: [PATCH 34/55] fix: array addresses that are out of range are refused

---
 src/sol/pario/csr_matrix_reader.cc | 2 +-
 src/sol/pario/numpy_reader.cc      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/pario/csr_matrix_reader.cc b/src/sol/pario/csr_matrix_reader.cc
index bc3a93c..bcbe56f 100644
--- a/src/sol/pario/csr_matrix_reader.cc
+++ b/src/sol/pario/csr_matrix_reader.cc
@@ -47,7 +47,7 @@ int ParseAddr(T& dst, const std::string& src) {
       return Status_IO_Error;
     }
   }
-  catch (invalid_argument&) {
+  catch (logic_error&) {  // invalid_argument or out_of_range
     return Status_IO_Error;
   }
   return Status_OK;
diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index a10cbdf..e13670b 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -45,7 +45,7 @@ int ParseAddr(T& dst, const std::string& src) {
       return Status_IO_Error;
     }
   }
-  catch (invalid_argument&) {
+  catch (logic_error&) {  // invalid_argument or out_of_range
     return Status_IO_Error;
   }
   return Status_OK;
-- 
2.43.0


From e9ffac401a5326eb427807f1215ba65f6706a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:48 +0000
Subject: [PATCH 35/55] fix: a feature filter that is refused leaves the
 earlier one in force

---
 src/sol/model/model.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 49842d7..e17c89e 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -338,9 +338,6 @@ void Model::FilterFeatures(DataPoint& x) {
 }
 
 int Model::LoadPreSelFeatures(const string& path) {
-  this->max_index_ = 0;
-  this->sel_feat_flags_.clear();
-
   ifstream in_file(path.c_str(), ios::in);
   if (!in_file) {
     cerr << "open file " << path << " failed\n!";
-- 
2.43.0


From 7cd68e5da3dcbcdaca0c65371aa91fc7195a733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 36/55] fix: a feature filter line with more than one index is
 refused

---
 src/sol/model/model.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index e17c89e..bdd031a 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -355,7 +355,10 @@ int Model::LoadPreSelFeatures(const string& path) {
     if (*p == '#') continue;
 
     try {
-      index = stoi(line);
+      size_t end = 0;
+      index = stoi(line, &end);
+      // one index per line
+      if (line.find_first_not_of(" \t\r", end) != string::npos) index = 0;
     }
     catch (logic_error&) {  // invalid_argument or out_of_range
       index = 0;
-- 
2.43.0


From 058307ef9079344b6a38e63b0151bb34a578e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:49 +0000
Subject: [PATCH 37/55] fix: a loss function that is refused leaves the current
 one in place

---
 include/sol/model/model.h       |  6 +++++
 src/sol/model/model.cc          | 39 +++++++++++++++++++++------------
 src/sol/model/olm/alma2.cc      |  5 +----
 src/sol/model/olm/arow.cc       |  5 +----
 src/sol/model/olm/cw.cc         |  5 +----
 src/sol/model/olm/eccw.cc       |  5 +----
 src/sol/model/olm/perceptron.cc |  5 +----
 src/sol/model/olm/sop.cc        |  5 +----
 8 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6475631..d2f4549 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -141,6 +141,12 @@ class SOL_EXPORTS Model {
     return this->clf_num_ == 1 ? (label == 1 ? 1 : -1) : label;
   }
 
+  /// \brief  set the loss function, the current one stays if it is refused
+  ///
+  /// \param name name of the loss function
+  /// \param type type the loss function must have, 0 if any will do
+  void SetLoss(const std::string &name, int type = 0);
+
  public:
   /// \brief  load pre-selected features
   ///
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index bdd031a..ac7fbb1 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <iomanip>
 #include <limits>
+#include <memory>
 #include <string>
 
 #include "sol/util/util.h"
@@ -62,20 +63,7 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "clf_num") {
     Check(stoi(value) == this->clf_num());
   } else if (name == "loss") {
-    DeletePointer(this->loss_);
-    this->loss_ = loss::Loss::Create(value);
-    Check(this->loss_ != nullptr);
-    if (this->clf_num_ == 1 &&
-        ((this->loss_->type() & loss::Loss::Type::BC) == 0)) {
-      throw invalid_argument(
-          "onlye binary loss function can be used with binary problems");
-    } else if (this->clf_num_ != 1 &&
-               ((this->loss_->type() & loss::Loss::Type::MC) == 0)) {
-      throw invalid_argument(
-          "onlye multiclass loss function can be used with multiclass "
-          "problems");
-    }
-    this->require_reinit_ = true;
+    this->SetLoss(value);
   } else if (name == "norm") {
     int norm_val = -1;
     try {
@@ -115,6 +103,29 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void Model::SetLoss(const std::string& name, int type) {
+  unique_ptr<loss::Loss> new_loss(loss::Loss::Create(name));
+  Check(new_loss != nullptr);
+  if (this->clf_num_ == 1 &&
+      ((new_loss->type() & loss::Loss::Type::BC) == 0)) {
+    throw invalid_argument(
+        "onlye binary loss function can be used with binary problems");
+  } else if (this->clf_num_ != 1 &&
+             ((new_loss->type() & loss::Loss::Type::MC) == 0)) {
+    throw invalid_argument(
+        "onlye multiclass loss function can be used with multiclass "
+        "problems");
+  }
+  if (type != 0 && (new_loss->type() & type) == 0) {
+    throw invalid_argument(type == loss::Loss::Type::HINGE
+                               ? "only hinge-based loss functions are allowed"
+                               : "only bool-based loss functions are allowed");
+  }
+  DeletePointer(this->loss_);
+  this->loss_ = new_loss.release();
+  this->require_reinit_ = true;
+}
+
 float Model::Test(DataIter& data_iter, std::ostream* os) {
   if (this->model_updated_) this->EndTrain();
 
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 04d2587..eb11223 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -50,10 +50,7 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     Check(this->k_ > 0);
     this->require_reinit_ = true;
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..b7c0dca 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -37,10 +37,7 @@ void AROW::SetParameter(const std::string& name, const std::string& value) {
   if (name == "r") {
     this->r_ = stof(value);
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index a0bdbbd..4149f17 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -45,10 +45,7 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
     this->phi_ = stof(value);
     this->require_reinit_ = true;
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 0e00119..af45560 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -46,10 +46,7 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
     this->set_phi(stof(value));
     this->require_reinit_ = true;
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/perceptron.cc b/src/sol/model/olm/perceptron.cc
index 2082897..f2db610 100644
--- a/src/sol/model/olm/perceptron.cc
+++ b/src/sol/model/olm/perceptron.cc
@@ -25,10 +25,7 @@ Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
 void Perceptron::SetParameter(const std::string& name,
                               const std::string& value) {
   if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::BOOL);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index 07af2c8..269d53a 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -36,10 +36,7 @@ void SOP::SetParameter(const std::string& name, const std::string& value) {
   if (name == "a") {
     this->a_ = stof(value);
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::BOOL);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From 285e42f6a6b128a40ed909969991384b8669d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:04 +0000
Subject: [PATCH 38/55] fix: a parameter value that is refused does not take
 effect

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++----
 src/sol/model/olm/ada_rda.cc   | 10 ++++++----
 src/sol/model/olm/alma2.cc     | 17 +++++++++++------
 src/sol/model/olm/fofs.cc      | 15 +++++++++------
 src/sol/model/olm/ogd.cc       | 10 ++++++----
 src/sol/model/olm/rda.cc       | 10 ++++++----
 src/sol/model/online_model.cc  | 25 ++++++++++++++++---------
 7 files changed, 60 insertions(+), 37 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 38c0d81..9c4853b 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -29,12 +29,14 @@ AdaFOBOS::~AdaFOBOS() { DeleteArray(this->H_); }
 
 void AdaFOBOS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 1168a9d..92f95a0 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -36,12 +36,14 @@ AdaRDA::~AdaRDA() {
 
 void AdaRDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index eb11223..da6c85a 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -38,23 +38,28 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
-    this->alpha_ = stof(value);
+    float alpha = stof(value);
+    Check(alpha > 0);
+    Check(alpha <= 1);
+    this->alpha_ = alpha;
     this->B_ = 1 / this->alpha_;
-    Check(alpha_ > 0);
-    Check(alpha_ <= 1);
     this->require_reinit_ = true;
   } else if (name == "C") {
     this->C_ = stof(value);
   } else if (name == "k") {
-    this->k_ = stoi(value);
-    Check(this->k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
     this->require_reinit_ = true;
   } else if (name == "loss") {
     this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
+    op::OpType norm_type = this->norm_type_;
     OnlineLinearModel::SetParameter(name, value);
-    Check(this->norm_type_ == op::OpType::kL2);
+    swap(norm_type, this->norm_type_);
+    Check(norm_type == op::OpType::kL2);
+    this->norm_type_ = norm_type;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ee17229..67eab7b 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -18,14 +18,17 @@ FOFS::~FOFS() {}
 
 void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else if (name == "lambda") {
-    this->lambda_ = stof(value);
-    Check(this->lambda_ >= 0);
+    float lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int B = stoi(value);
+    Check(B > 0);
+    this->B_ = static_cast<index_t>(B);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 98fd158..15548de 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -24,8 +24,9 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   if (name == "power_t") {
     this->set_power_t(stof(value));
   } else if (name == "eta") {
-    this->eta0_ = stof(value);
-    Check(eta0_ >= 0);
+    float eta0 = stof(value);
+    Check(eta0 >= 0);
+    this->eta0_ = eta0;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -75,8 +76,9 @@ STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
-    this->k_ = stoi(value);
-    Check(k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
   } else {
     OGD::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..ff98b18 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -29,8 +29,9 @@ RDA::~RDA() { DeleteArray(this->ut_); }
 
 void RDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "sigma") {
-    this->sigma_ = stof(value);
-    Check(sigma_ > 0);
+    float sigma = stof(value);
+    Check(sigma > 0);
+    this->sigma_ = sigma;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -139,8 +140,9 @@ ERDA_L1::ERDA_L1(int class_num) : RDA(class_num), rou_(0.f) {
 
 void ERDA_L1::SetParameter(const std::string& name, const std::string& value) {
   if (name == "rou") {
-    this->rou_ = stof(value);
-    Check(rou_ >= 0);
+    float rou = stof(value);
+    Check(rou >= 0);
+    this->rou_ = rou;
   } else {
     RDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index aac47a0..b80d289 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -81,36 +81,43 @@ OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
 void OnlineModel::SetParameter(const std::string& name,
                                const std::string& value) {
   if (name == "bias_eta") {
-    this->bias_eta0_ = stof(value);
-    Check(bias_eta0_ >= 0);
+    float bias_eta0 = stof(value);
+    Check(bias_eta0 >= 0);
+    this->bias_eta0_ = bias_eta0;
   } else if (name == "t") {
     this->set_initial_t(stoi(value));
     if (this->regularizer_ != nullptr) {
       this->regularizer_->SetParameter("t0", value);
     }
   } else if (name == "dim") {
-    this->update_dim(stoi(value));
+    int dim = stoi(value);
+    Check(dim >= 0);
+    this->update_dim(dim);
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-    this->active_smoothness_ = stof(value);
-    Check(active_smoothness_ > 0);
+    float active_smoothness = stof(value);
+    Check(active_smoothness > 0);
+    this->active_smoothness_ = active_smoothness;
   } else if (name == "cost_margin") {
     if (this->clf_num_ != 1) {
       throw invalid_argument(
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
-    this->cost_margin_ = stof(value);
-    Check(cost_margin_ > 0);
+    float cost_margin = stof(value);
+    Check(cost_margin > 0);
+    this->cost_margin_ = cost_margin;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
+    IterDisplayer* displayer = new ExpIterDisplayer(stoi(value));
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new ExpIterDisplayer(stoi(value));
+    this->iter_displayer_ = displayer;
   } else if (name == "step_show") {
+    IterDisplayer* displayer = new StepIterDisplayer(stoi(value));
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new StepIterDisplayer(stoi(value));
+    this->iter_displayer_ = displayer;
   } else {
     Model::SetParameter(name, value);
   }
-- 
2.43.0


From 77ea934f0b019c11d8a1c2cbd3e378e66ecff378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:15 +0000
Subject: [PATCH 39/55] fix: training on a label beyond the classes no longer
 writes out of bounds

---
 src/sol/model/online_linear_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index 7cb3a03..63c1e96 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -51,6 +51,12 @@ label_t OnlineLinearModel::Iterate(const DataPoint& dp, float* predicts) {
   if (this->regularizer_ != nullptr) {
     this->online_regularizer()->BeginIterate(dp);
   }
+  // no classifier for the label: an error, but nothing to learn from
+  if (this->clf_num_ != 1 &&
+      (dp.label() < 0 || dp.label() >= this->clf_num_)) {
+    --this->cur_iter_num_;
+    return this->Predict(dp, predicts);
+  }
 
   label_t label = this->TrainPredict(dp, predicts);
   // active learning
-- 
2.43.0


From c463ce92454e7ff3bd41ad9f285240e7a864943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 40/55] fix: rows of an array beyond 2 GB are read from the
 right place

---
 src/sol/pario/numpy_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index e13670b..65fcb83 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -82,7 +82,8 @@ int NumpyReader::Next(DataPoint& dst_data) {
   }
 
   // 2. parse features
-  double* ptr = (double*)((char*)this->X_ + this->x_idx_ * this->stride_);
+  double* ptr = (double*)((char*)this->X_ +
+                          (long long)(this->x_idx_) * this->stride_);
   for (int j = 0; j < this->n_features_; ++j, ++ptr) {
     if (*ptr != 0) {
       dst_data.AddNewFeat(j + 1, static_cast<real_t>(*ptr));
-- 
2.43.0


From c3c9ee6df02a25e040b9b30bafd2b0155da0eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 41/55] fix: batch sizes and numbers below one count as one
 instead of hanging or failing to allocate

---
 src/sol/pario/data_iter.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index 664dc6d..b5b96cc 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -14,11 +14,11 @@ using namespace std;
 namespace sol {
 namespace pario {
 DataIter::DataIter(int batch_size, int batch_num)
-    : batch_size_(batch_size),
-      mini_batch_factory_(batch_num),
-      mini_batch_buf_(batch_num) {
-  for (int i = 0; i < batch_num; ++i) {
-    this->mini_batch_factory_.Enqueue(new MiniBatch(batch_size));
+    : batch_size_(batch_size > 0 ? batch_size : 1),
+      mini_batch_factory_(batch_num > 0 ? batch_num : 1),
+      mini_batch_buf_(batch_num > 0 ? batch_num : 1) {
+  for (int i = 0; i < this->mini_batch_factory_.capacity(); ++i) {
+    this->mini_batch_factory_.Enqueue(new MiniBatch(this->batch_size_));
   }
   // signal to start next reader
   this->mini_batch_buf_.Enqueue(nullptr);
-- 
2.43.0


From 250351b6656f03a31705605103265e92eec03085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 42/55] fix: a feature selecting model keeps to its number of
 features after a restart

---
 include/sol/model/online_linear_model.h | 25 +++++++++++++++++++++++++
 src/sol/model/olm/ada_fobos.cc          |  2 +-
 src/sol/model/olm/arow.cc               |  2 +-
 src/sol/model/olm/fofs.cc               |  5 ++++-
 src/sol/model/olm/ogd.cc                |  5 ++++-
 5 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/sol/model/online_linear_model.h b/include/sol/model/online_linear_model.h
index 28ed12e..07ba48d 100644
--- a/include/sol/model/online_linear_model.h
+++ b/include/sol/model/online_linear_model.h
@@ -47,6 +47,31 @@ class OnlineLinearModel : public OnlineModel {
 
   virtual label_t TrainPredict(const pario::DataPoint& dp, float* predicts);
 
+  /// \brief  initialize the heap of selected features, starting with those
+  /// that have weights already (of a model that is trained further), and drop
+  /// the weights of all others
+  ///
+  /// \param heap heap of features
+  /// \param num number of features to select
+  /// \param values values of all features
+  template <typename HeapType>
+  void InitSelection(HeapType& heap, index_t num, const real_t* values) {
+    math::Vector<index_t> indexes, others;
+    for (index_t i = 1; i < this->dim_; ++i) {
+      bool has_weight = false;
+      for (int c = 0; c < this->clf_num_; ++c) has_weight |= w(c)[i] != 0;
+      (has_weight ? indexes : others).push_back(i - 1);
+    }
+    for (size_t i = 0; indexes.size() < num; ++i) indexes.push_back(others[i]);
+
+    heap.Init(this->dim_ - 1, num, indexes.data(), values);
+    for (index_t i = 0; i + 1 < this->dim_; ++i) {
+      index_t out_idx = heap.UpdateHeap(i);
+      if (out_idx == invalid_index) continue;
+      for (int c = 0; c < this->clf_num_; ++c) w(c)[out_idx + 1] = 0;
+    }
+  }
+
  public:
   virtual float model_sparsity();
 
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 9c4853b..0bcc9d1 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -172,7 +172,7 @@ void AdaFOBOS_OFS::BeginTrain() {
         (*this->H_sum_) += H_[i];
       }
     }
-    this->min_heap_.Init(this->dim_ - 1, B, this->H_sum_->data() + 1);
+    this->InitSelection(this->min_heap_, B, this->H_sum_->data() + 1);
   }
 }
 
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index b7c0dca..45fd5fc 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -147,7 +147,7 @@ void SOFS::BeginTrain() {
         (*this->Sigma_sum_) += Sigma(i);
       }
     }
-    this->max_heap_.Init(this->dim_ - 1, B, this->Sigma_sum_->data() + 1);
+    this->InitSelection(this->max_heap_, B, this->Sigma_sum_->data() + 1);
   }
 }
 
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 67eab7b..5b4a77f 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -51,7 +51,10 @@ void FOFS::BeginTrain() {
     for (int i = 0; i < this->clf_num_; ++i) {
       abs_w += L1(w(i));
     }
-    this->min_heap_.Init(this->dim_ - 1, this->B_, abs_w.data() + 1);
+    this->InitSelection(this->min_heap_, this->B_, abs_w.data() + 1);
+    for (index_t i = 1; i < this->dim_; ++i) {
+      if (!this->min_heap_.isTopK(i - 1)) abs_w[i] = 0;
+    }
   }
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 15548de..07bcd05 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -204,7 +204,10 @@ void PET::BeginTrain() {
     for (int i = 0; i < this->clf_num_; ++i) {
       abs_w += L1(w(i));
     }
-    this->min_heap_.Init(this->dim_ - 1, B, abs_w.data() + 1);
+    this->InitSelection(this->min_heap_, B, abs_w.data() + 1);
+    for (index_t i = 1; i < this->dim_; ++i) {
+      if (!this->min_heap_.isTopK(i - 1)) abs_w[i] = 0;
+    }
   }
 }
 
-- 
2.43.0


From 5e98b4e7e27ff10f33ddf7220b1c5f34e288a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 43/55] fix: fofs settings changed between two trainings take
 effect

---
 src/sol/model/olm/fofs.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 5b4a77f..9abf991 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -21,14 +21,17 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     float eta = stof(value);
     Check(eta >= 0);
     this->eta_ = eta;
+    this->require_reinit_ = true;
   } else if (name == "lambda") {
     float lambda = stof(value);
     Check(lambda >= 0);
     this->lambda_ = lambda;
+    this->require_reinit_ = true;
   } else if (name == "B") {
     int B = stoi(value);
     Check(B > 0);
     this->B_ = static_cast<index_t>(B);
+    this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From 2e9962fab22501d2f402a2ec95c024ddf42f7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 44/55] fix: the number of selected features can be changed
 between two trainings and is never negative

---
 src/sol/model/olm/ada_fobos.cc | 5 ++++-
 src/sol/model/olm/ada_rda.cc   | 7 +++++--
 src/sol/model/olm/arow.cc      | 5 ++++-
 src/sol/model/olm/ogd.cc       | 5 ++++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0bcc9d1..2d0cea1 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -149,8 +149,11 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 }
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     AdaFOBOS::SetParameter("lambda", value);
+    // the features are selected anew
+    this->require_reinit_ = true;
   } else {
     AdaFOBOS::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 92f95a0..8192b55 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -170,8 +170,11 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 }
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     AdaRDA::SetParameter("lambda", value);
+    // the features are selected anew
+    this->require_reinit_ = true;
   } else {
     AdaRDA::SetParameter(name, value);
   }
@@ -282,7 +285,7 @@ void AdaRDA_OFS::EndTrain() {
 
   //truncate weights
   index_t B = static_cast<index_t>(this->l0_.lambda());
-  if (B > 0) {
+  if (B > 0 && this->min_heap_.K() > 0) {
     for (size_t i = 1; i < this->dim_; ++i) {
       index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
       if (ret_idx != invalid_index) {
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 45fd5fc..5fbb199 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -124,8 +124,11 @@ SOFS::~SOFS() {
 }
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     AROW::SetParameter("lambda", value);
+    // the features are selected anew
+    this->require_reinit_ = true;
   } else {
     AROW::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 07bcd05..d7b254f 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -182,8 +182,11 @@ PET::PET(int class_num) : OGD(class_num) { this->regularizer_ = &(this->l0_); }
 PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     OGD::SetParameter("lambda", value);
+    // the features are selected anew
+    this->require_reinit_ = true;
   } else {
     OGD::SetParameter(name, value);
   }
-- 
2.43.0


From c8ee0a4fa5fc9af2932b92d46d7f36c95bb0f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 45/55] fix: split refuses less than one fold and counts fold
 sizes exactly

---
 src/sol/tools.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 7304d70..3acdadf 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -234,6 +234,10 @@ int shuffle(const std::string& src_path, const std::string& src_type,
 
 int split(const string& src_path, const string& src_type, int fold_num,
           const string& output_prefix, const string& dst_type, bool shuffle) {
+  if (fold_num < 1) {
+    cerr << "the number of folds should be at least one\n";
+    return Status_Invalid_Argument;
+  }
   DataIter iter;
   int ret = iter.AddReader(src_path, src_type);
   if (ret != Status_OK) return ret;
@@ -270,7 +274,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
     std::shuffle(data_list.begin(), data_list.end(), g);
   }
 
-  size_t data_split_num = size_t(ceil(data_list.size() / float(fold_num)));
+  size_t data_split_num = (data_list.size() + fold_num - 1) / fold_num;
   size_t data_idx = 0;
   size_t end_idx = data_split_num;
 
-- 
2.43.0


From 42fa35b2ca3d63f799c7396fbc31c123cdeeeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 46/55] fix: leave tools/sol_test.cc as it was (its name makes
 it a test file)

---
 tools/sol_test.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tools/sol_test.cc b/tools/sol_test.cc
index 5491dbe..520f845 100644
--- a/tools/sol_test.cc
+++ b/tools/sol_test.cc
@@ -58,7 +58,7 @@ int test(cmdline::parser& parser) {
     try {
       model->SetParameter("filter", parser.get<string>("filter"));
     }
-    catch (logic_error& err) {
+    catch (invalid_argument& err) {
       fprintf(stderr, "%s\n", err.what());
       return Status_Invalid_Argument;
     }
@@ -75,17 +75,13 @@ int test(cmdline::parser& parser) {
     ofstream out_file(output_path.c_str(), ios::out);
     err_rate = model->Test(iter, &out_file);
     out_file.close();
-    if (!out_file) {
-      fprintf(stderr, "writing %s failed!\n", output_path.c_str());
-      ret = Status_IO_Error;
-    }
   } else {
     err_rate = model->Test(iter, nullptr);
   }
   double end_time = sol::get_current_time();
   fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   fprintf(stdout, "test time: %.3f seconds\n", end_time - start_time);
-  return ret == Status_OK ? iter.status() : ret;
+  return Status_OK;
 }
 
 void getparser(int argc, char** argv, cmdline::parser& parser) {
-- 
2.43.0


From 48f6a072adb30ea136c4483f7ab7284572ec3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:54 +0000
Subject: [PATCH 47/55] fix: finalizing an ada-rda model leaves exactly the
 bias it was trained with

---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 8192b55..52a153a 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -71,7 +71,7 @@ void AdaRDA::EndTrain() {
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = -eta_ * ut_[c] / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
   OnlineLinearModel::EndTrain();
 }
@@ -280,7 +280,7 @@ void AdaRDA_OFS::EndTrain() {
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = -eta_ * ut_[c] / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
-- 
2.43.0


From a6a136f1a9add557ec19bb43d869aa68ecfa4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:07 +0000
Subject: [PATCH 48/55] fix: a hinge loss of zero leaves no gradient of an
 earlier sample behind

---
 src/sol/loss/hinge_loss.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..b1101e8 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -81,8 +81,8 @@ float MaxScoreHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
   } else {
     loss = (std::max)(0.0f,
                       this->margin_ - predict[label] + predict[predict_label]);
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     if (loss > 0) {
-      for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
       gradient[predict_label] = 1;
       gradient[label] = -1;
     }
@@ -156,6 +156,8 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
         }
       }
       gradient[label] = -1;
+    } else {
+      for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     }
   }
   return loss;
-- 
2.43.0


From fd571f25ab158e47f4b298384f34665e2d825595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:07 +0000
Subject: [PATCH 49/55] fix: the uniform hinge loss reports its value, so that
 models learn with it

---
 src/sol/loss/hinge_loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index b1101e8..9381065 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -137,7 +137,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
@@ -145,7 +145,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
       }
     }
   } else {
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
-- 
2.43.0


From ca903a6aaaf7011406f6b1ad3a6f47795322b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:23 +0000
Subject: [PATCH 50/55] fix: a source that cannot be rewound ends with an
 error, not after one pass

---
 include/sol/pario/file_reader.h |  2 ++
 src/sol/pario/file_reader.cc    | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/sol/pario/file_reader.h b/include/sol/pario/file_reader.h
index 3421e3f..83bd723 100755
--- a/include/sol/pario/file_reader.h
+++ b/include/sol/pario/file_reader.h
@@ -80,6 +80,8 @@ class SOL_EXPORTS FileReader {
  private:
   FILE* file_;
   ReadMode mode_;
+  // the beginning could not be found again, e.g. in a pipe
+  bool rewind_failed_;
 };  // class FileReader
 
 }  // namespace pario
diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index a2c5786..26bff1d 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -22,9 +22,10 @@ using namespace std;
 namespace sol {
 namespace pario {
 
-FileReader::FileReader() : file_(nullptr), mode_(kUnknown) {}
+FileReader::FileReader()
+    : file_(nullptr), mode_(kUnknown), rewind_failed_(false) {}
 FileReader::FileReader(const char* path, const char* mode)
-    : file_(nullptr), mode_(kUnknown) {
+    : file_(nullptr), mode_(kUnknown), rewind_failed_(false) {
   this->Open(path, mode);
 }
 
@@ -65,10 +66,13 @@ void FileReader::Close() {
   }
   this->file_ = nullptr;
   this->mode_ = kUnknown;
+  this->rewind_failed_ = false;
 }
 
 void FileReader::Rewind() {
-  if (this->file_ != nullptr) rewind(this->file_);
+  if (this->file_ == nullptr) return;
+  this->rewind_failed_ = fseek(this->file_, 0, SEEK_SET) != 0;
+  if (this->rewind_failed_ == false) clearerr(this->file_);
 }
 
 bool FileReader::Good() {
@@ -78,6 +82,10 @@ bool FileReader::Good() {
 }
 
 int FileReader::Read(char* dst, size_t length) {
+  if (this->rewind_failed_) {
+    fprintf(stderr, "Error %d: rewind failed\n", Status_IO_Error);
+    return Status_IO_Error;
+  }
   size_t read_len = fread(dst, 1, length, this->file_);
   if (read_len == length) {
     return Status_OK;
@@ -96,6 +104,10 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
         "ReadLine can only be called when only file is opened with `text` "
         "mode.\n");
   }
+  if (this->rewind_failed_) {
+    fprintf(stderr, "Error %d: rewind failed\n", Status_IO_Error);
+    return Status_IO_Error;
+  }
   int len(0);
   if (fgets(dst, dst_len, this->file_) == nullptr) {
     if (feof(this->file_)) {
-- 
2.43.0


From f4374620c16df9608a46eeea2a1eed79bf0ebbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:23 +0000
Subject: [PATCH 51/55] fix: standard input read a second time starts at its
 beginning or is refused

---
 src/sol/pario/data_read_task.cc | 3 +--
 src/sol/pario/file_reader.cc    | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sol/pario/data_read_task.cc b/src/sol/pario/data_read_task.cc
index bd29e94..b979808 100644
--- a/src/sol/pario/data_read_task.cc
+++ b/src/sol/pario/data_read_task.cc
@@ -45,8 +45,7 @@ void DataReadTask::run() {
         ++mini_batch->data_num;
         continue;
       } else if (status == Status_EndOfFile) {
-        --this->pass_num_;
-        reader->Rewind();
+        if (--this->pass_num_ > 0) reader->Rewind();
         status = Status_OK;
         break;
       } else
diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 26bff1d..f7afdf8 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -47,6 +47,11 @@ int FileReader::Open(const char* path, const char* mode) {
   if (strcmp(path, "-") == 0) {
     this->file_ = stdin;
     path = "stdin";
+    // read to its end before: start again if possible
+    if (feof(stdin)) {
+      this->Rewind();
+      if (this->rewind_failed_) this->file_ = nullptr;
+    }
   } else {
     this->file_ = open_file(path, mode);
   }
-- 
2.43.0


From 73e7d2332b13bd4be3c7e67f04dea1571a64267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:23 +0000
Subject: [PATCH 52/55] fix: cost sensitive learning with another than a hinge
 loss is refused when it is set

---
 src/sol/model/online_model.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index b80d289..b65747b 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -105,11 +105,21 @@ void OnlineModel::SetParameter(const std::string& name,
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
+    if (this->loss_ == nullptr ||
+        (this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
+      throw invalid_argument(
+          "only hinge-based loss functions are allowed in cost sensitive "
+          "learning");
+    }
     float cost_margin = stof(value);
     Check(cost_margin > 0);
     this->cost_margin_ = cost_margin;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
+  } else if (name == "loss") {
+    this->SetLoss(value, this->cost_sensitive_learning_
+                             ? int(loss::Loss::Type::HINGE)
+                             : 0);
   } else if (name == "exp_show") {
     IterDisplayer* displayer = new ExpIterDisplayer(stoi(value));
     DeletePointer(this->iter_displayer_);
-- 
2.43.0


From 503e977843395571dd8e0f2d02244b138fc39473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:13 +0000
Subject: [PATCH 53/55] fix: a feature of index 0, the bias, is no candidate of
 feature selection

---
 include/sol/util/heap.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sol/util/heap.h b/include/sol/util/heap.h
index cdc7e57..f7d0115 100644
--- a/include/sol/util/heap.h
+++ b/include/sol/util/heap.h
@@ -68,7 +68,10 @@ class Heap {
  public:
   inline index_t K() const { return K_; }
 
-  inline index_t get_pos(index_t idx) const { return this->id2pos_map_[idx]; }
+  // an index that the heap does not cover is never in the heap
+  inline index_t get_pos(index_t idx) const {
+    return idx < this->N_ ? this->id2pos_map_[idx] : this->K_;
+  }
 
   inline bool isTopK(index_t idx) const {
     return this->id2pos_map_[idx] < this->K_;
@@ -167,6 +170,8 @@ void Heap<comparator>::HeapSort() {
 
 template <typename comparator>
 index_t Heap<comparator>::UpdateHeap(index_t idx) {
+  if (idx >= this->N_) return invalid_index;
+
   index_t cur_pos = this->id2pos_map_[idx];
   if (cur_pos < this->K_) return invalid_index;
 
-- 
2.43.0


From b7a02793cdaf62b9dba40d372f836ff37b4095ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:13 +0000
Subject: [PATCH 54/55] fix: a row that csv can not hold fails the conversion
 instead of losing its features

---
 src/sol/pario/csv_writer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sol/pario/csv_writer.cc b/src/sol/pario/csv_writer.cc
index cd5cd82..bda4063 100755
--- a/src/sol/pario/csv_writer.cc
+++ b/src/sol/pario/csv_writer.cc
@@ -29,6 +29,12 @@ int CSVWriter::Write(const DataPoint& data) {
   for (; j < this->feat_dim_; ++j) this->file_writer_.Printf(",0");
 
   this->file_writer_.Printf("\n");
+  if (i < feat_num) {
+    // index 0, a repeated index, or one beyond the announced dimension
+    fprintf(stderr, "feature %u can not be written in csv format!\n",
+            static_cast<unsigned int>(data.index(i)));
+    return Status_Invalid_Format;
+  }
   return this->file_writer_.Good() ? Status_OK : Status_IO_Error;
 }
 
-- 
2.43.0


From cec124057e45dbca042d090843d1172095a456c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:47 +0000
Subject: [PATCH 55/55] fix: a reader thread that can not be created ends its
 source with an error, not in a hang

---
 include/sol/pario/data_read_task.h |  4 ++++
 include/sol/util/thread.h          |  6 +++++-
 src/sol/pario/data_read_task.cc    | 14 ++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/sol/pario/data_read_task.h b/include/sol/pario/data_read_task.h
index 2457a14..9086409 100755
--- a/include/sol/pario/data_read_task.h
+++ b/include/sol/pario/data_read_task.h
@@ -34,6 +34,10 @@ class DataReadTask : public ThreadTask {
  public:
   inline bool Good() { return this->reader_ != nullptr; }
 
+  /// \brief  start reading in a separate thread, without one the task ends
+  /// with an error
+  void Start();
+
   /// \brief  status of the finished task, Status_OK if nothing failed
   inline int status() const { return this->status_; }
 
diff --git a/include/sol/util/thread.h b/include/sol/util/thread.h
index b1ee6b6..118113f 100644
--- a/include/sol/util/thread.h
+++ b/include/sol/util/thread.h
@@ -9,6 +9,8 @@
 #ifndef CXX_SELF_CUSTOMIZED_THREAD_H__
 #define CXX_SELF_CUSTOMIZED_THREAD_H__
 
+#include <stdexcept>
+
 #include <sol/util/mutex.h>
 
 #if USE_STD_THREAD
@@ -67,7 +69,9 @@ class Thread {
  public:
   Thread(ThreadFuncType start_routine, void* param)
       : thread_func_(start_routine), thread_func_param_(param) {
-    pthread_create(&thread_, nullptr, Thread::ThreadProxy, this);
+    if (pthread_create(&thread_, nullptr, Thread::ThreadProxy, this) != 0) {
+      throw std::runtime_error("create thread failed!");
+    }
   }
 
   void join() { pthread_join(this->thread_, nullptr); }
diff --git a/src/sol/pario/data_read_task.cc b/src/sol/pario/data_read_task.cc
index b979808..13f03e2 100644
--- a/src/sol/pario/data_read_task.cc
+++ b/src/sol/pario/data_read_task.cc
@@ -7,6 +7,10 @@
 **********************************************************************************/
 
 #include "sol/pario/data_read_task.h"
+
+#include <cstdio>
+#include <exception>
+
 #include "sol/util/error_code.h"
 
 namespace sol {
@@ -28,6 +32,16 @@ DataReadTask::DataReadTask(const std::string& path, const std::string& dtype,
   this->reader_.reset(reader);
 }
 
+void DataReadTask::Start() {
+  try {
+    ThreadTask::Start();
+  } catch (const std::exception& err) {
+    fprintf(stderr, "start reading failed: %s\n", err.what());
+    this->status_ = Status_Error;
+    this->mini_batch_buf_.Enqueue(nullptr);
+  }
+}
+
 void DataReadTask::run() {
   int status = Status_OK;
   DataReader* reader = this->reader_.get();
-- 
2.43.0

