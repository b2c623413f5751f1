From c2355f257d334517cafc170c182acc0e09e3af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 01/24] fix: Abstract_File::equal_to continues after a short
 read of the destination at the right offset

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From 704035a79a982e1eac2703abd5a6c5c3348bb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:13 +0000
Subject: [PATCH 02/24] fix: File_Hasher hashes all the bytes when a file
 returns short reads

---
 src/joedb/journal/File_Hasher.cpp | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..d556d27 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -6,6 +6,29 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static size_t read_block
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const Abstract_File &file,
+  char * const data,
+  const size_t size,
+  const int64_t offset
+ )
+ {
+  size_t done = 0;
+
+  while (done < size)
+  {
+   const size_t n = file.pread(data + done, size - done, offset + int64_t(done));
+   if (n == 0)
+    break;
+   done += n;
+  }
+
+  return done;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  SHA_256::Hash File_Hasher::get_hash
  ////////////////////////////////////////////////////////////////////////////
@@ -28,7 +51,14 @@ namespace joedb
    if (current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = read_block
+   (
+    file,
+    hashing_buffer.data(),
+    block_size,
+    start + current_size
+   );
+
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +128,7 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   read_block(file, buffer.data(), buffer.size(), buffer_position);
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From a4bec0c5939bb3951fdf18b991449d935abc4ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 03/24] fix: Stream_File seeks when switching between reading
 and writing, as streams may have distinct positions

---
 src/joedb/journal/Stream_File.cpp | 13 ++++++++-----
 src/joedb/journal/Stream_File.h   |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..f9082a7 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  writing(false)
  {
   streambuf.pubseekoff
   (
@@ -26,6 +27,7 @@ namespace joedb
  int64_t Stream_File::get_size() const
  /////////////////////////////////////////////////////////////////////////////
  {
+  writing = false;
   pos = streambuf.pubseekoff
   (
    0,
@@ -37,14 +39,15 @@ namespace joedb
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek(int64_t offset, bool write) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  if (int64_t(pos) == offset)
+  if (int64_t(pos) == offset && writing == write)
    return;
 
   if (offset >= 0)
   {
+   writing = write;
    pos = streambuf.pubseekoff(offset, std::ios_base::beg);
    if (int64_t(pos) == offset)
     return;
@@ -57,7 +60,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, false);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +70,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, true);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..b21b592 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,8 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+   mutable bool writing; // streams may have distinct read and write positions
+   void seek(int64_t offset, bool write) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From 669bbea96f638a6afac351a41eb4f89fe11c8529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 04/24] fix: an interrupted checkpoint does not leave the
 journal pointing at a slot that was not written

---
 src/joedb/journal/Writable_Journal.cpp | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..deaad56 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -118,19 +118,21 @@ namespace joedb
 
   JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());
 
-  soft_index ^= 1;
-  checkpoint_position = position;
+  const int new_soft_index = soft_index ^ 1;
 
   Head_Exclusive_Lock lock(file);
 
-  const int64_t neg = -checkpoint_position;
+  const int64_t neg = -position;
 
   file.pwrite
   (
    reinterpret_cast<const char *>(&neg),
    sizeof(neg),
-   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + new_soft_index)
   );
+
+  soft_index = new_soft_index;
+  checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
@@ -142,28 +144,30 @@ namespace joedb
 
   file_buffer.flush();
 
-  hard_index ^= 1;
-  hard_checkpoint_position = checkpoint_position = position;
+  const int new_hard_index = hard_index ^ 1;
 
   Head_Exclusive_Lock lock(file);
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index)
   );
 
   file.sync();
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + 1)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index + 1)
   );
 
   file.datasync();
+
+  hard_index = new_hard_index;
+  hard_checkpoint_position = checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 820dcf0012ee84a6b2a5cfea3034eb69c79ec741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 05/24] fix: lock_pull releases the tail lock when pulling
 fails

---
 src/joedb/journal/Writable_Journal.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index deaad56..53ee980 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -473,7 +473,16 @@ namespace joedb
   if (file.is_shared())
   {
    file.exclusive_lock_tail();
-   pull_without_locking();
+
+   try
+   {
+    pull_without_locking();
+   }
+   catch (...)
+   {
+    file.unlock_tail();
+    throw;
+   }
   }
  }
 
-- 
2.43.0


From 51fd92802ef180c4202c710066f29596d1302aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 06/24] fix: Journal_Construction_Lock reads the file size
 under the lock, and releases its locks when construction fails

---
 .../journal/Journal_Construction_Lock.cpp     | 44 +++++++++++++++----
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..830aa3b 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -2,6 +2,40 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static int64_t lock_and_get_size(Abstract_File &file)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  if (file.is_shared())
+   file.exclusive_lock_tail();
+
+  try
+  {
+   if (file.is_readonly())
+    file.shared_lock_head();
+   else
+    file.exclusive_lock_head();
+  }
+  catch (...)
+  {
+   if (file.is_shared())
+    file.unlock_tail();
+   throw;
+  }
+
+  try
+  {
+   return file.get_size();
+  }
+  catch (...)
+  {
+   file.unlock_head();
+   if (file.is_shared())
+    file.unlock_tail();
+   throw;
+  }
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  Journal_Construction_Lock::Journal_Construction_Lock
  ////////////////////////////////////////////////////////////////////////////
@@ -11,16 +45,8 @@ namespace joedb
  ):
   file(file),
   recovery(recovery),
-  size(file.get_size())
+  size(lock_and_get_size(file))
  {
-  if (file.is_readonly())
-   file.shared_lock_head();
-  else
-  {
-   if (file.is_shared())
-    file.exclusive_lock_tail();
-   file.exclusive_lock_head();
-  }
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 64dec2cec3357cefb92cc6551b747bcec95ebdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 07/24] fix: opening with Recovery::overwrite overwrites all
 the soft checkpoints that are after the end of the file

---
 src/joedb/journal/Writable_Journal.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 53ee980..84ec97f 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -58,11 +58,20 @@ namespace joedb
    );
   }
 
-  // overwrite after-the-end-of-file soft checkpoint
-  if (lock.recovery == Recovery::overwrite && checkpoint_position == lock.size)
+  // overwrite after-the-end-of-file soft checkpoints
+  if (lock.recovery == Recovery::overwrite && lock.size > 0)
   {
-   checkpoint_position = -1;
-   soft_checkpoint_at(lock.size);
+   const int64_t neg = -checkpoint_position;
+
+   for (int i = 0; i < 2; i++)
+   {
+    file.pwrite
+    (
+     reinterpret_cast<const char *>(&neg),
+     sizeof(neg),
+     int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + i)
+    );
+   }
   }
  }
 
-- 
2.43.0


From 912f17dcb549c3a088be945e8d70d5cb10a5560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:32 +0000
Subject: [PATCH 08/24] fix: partial replay must not skip operations past the
 requested end

---
 src/joedb/journal/Readonly_Journal.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index 8e01958..248ce3e 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -1,6 +1,7 @@
 #include "joedb/journal/Readonly_Journal.h"
 #include "joedb/error/Exception.h"
 
+#include <algorithm>
 #include <vector>
 
 namespace joedb
@@ -203,11 +204,14 @@ void joedb::Readonly_Journal::play_until(Writable &writable, int64_t end)
   if (get_position() < writable_position)
   {
    Dummy_Writable dummy_writable;
-   raw_play_until(dummy_writable, writable_position);
+   raw_play_until(dummy_writable, std::min(writable_position, end));
+  }
+  if (get_position() < end)
+  {
+   writable.start_writing(get_position());
+   raw_play_until(writable, end);
+   writable.end_writing(get_position());
   }
-  writable.start_writing(get_position());
-  raw_play_until(writable, end);
-  writable.end_writing(get_position());
   writable.soft_checkpoint();
  }
 
-- 
2.43.0


From fa04ae22f0921cacc250ec1230ffc6e47cd7882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 09/24] fix: freedom keeper range queries must not overflow

---
 src/joedb/Freedom_Keeper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..d74006c 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -88,7 +88,7 @@ namespace joedb
 
    bool is_free_vector(Record_Id index, size_t size) const
    {
-    if (index.is_null())
+    if (index.is_null() || index + size < index)
      return false;
 
     for (size_t i = 0; i < size; i++)
@@ -107,6 +107,7 @@ namespace joedb
     if
     (
      index.is_null() ||
+     index + size < index ||
      index + size > freedom_size
     )
     {
@@ -302,7 +303,7 @@ namespace joedb
 
    bool is_free_vector(Record_Id index, size_t size) const
    {
-    return index >= used_size;
+    return index >= used_size && index + size >= index;
    }
 
    bool is_used_vector(Record_Id index, size_t size) const
-- 
2.43.0


From 0b4327883c6922683d0a32e26f69e5c44ad73696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 10/24] fix: the record before the first free one is the head
 of the free list

---
 src/joedb/Freedom_Keeper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index d74006c..a5db04f 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -282,12 +282,12 @@ namespace joedb
 
     const Record_Id result = index - 1;
 
-    if (result == Record_Id{-1})
-     return used_list;
-
     if (result == used_size - 1)
      return free_list;
 
+    if (result == Record_Id{-1})
+     return used_list;
+
     return result;
    }
 
-- 
2.43.0


From 775105c99bf4d9b3ffd1ddff45e55c579fe769ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:05 +0000
Subject: [PATCH 11/24] fix: create_table must refuse to reuse table
 identifiers

---
 src/joedb/interpreted/Database_Schema.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/joedb/interpreted/Database_Schema.cpp b/src/joedb/interpreted/Database_Schema.cpp
index a10c710..3c4698a 100644
--- a/src/joedb/interpreted/Database_Schema.cpp
+++ b/src/joedb/interpreted/Database_Schema.cpp
@@ -2,6 +2,8 @@
 #include "joedb/error/Exception.h"
 #include "joedb/is_identifier.h"
 
+#include <limits>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -108,6 +110,9 @@ namespace joedb
   if (find_table(name) != Table_Id(0))
    throw Exception("create_table: name already used: " + name);
 
+  if (current_table_id == Table_Id(std::numeric_limits<std::underlying_type<Table_Id>::type>::max()))
+   throw Exception("create_table: reached maximum table count");
+
   ++current_table_id;
   tables.try_emplace(current_table_id);
   table_names.try_emplace(current_table_id, name);
-- 
2.43.0


From 154d7347d06d10c121fb29879737967ab646b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:05 +0000
Subject: [PATCH 12/24] fix: a refused insert_vector must leave the table
 unchanged

---
 src/joedb/interpreted/Table.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..34558a0 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -71,9 +71,10 @@ namespace joedb
   JOEDB_RELEASE_ASSERT(freedom.is_free_vector(record_id, size));
   if (record_id == freedom.get_size())
   {
-   freedom.resize(freedom.size() + size);
+   const size_t new_size = freedom.size() + size;
    for (auto &field: fields)
-    field.second.resize(freedom.size());
+    field.second.resize(new_size);
+   freedom.resize(new_size);
    freedom.use_vector(record_id, size);
   }
   else
-- 
2.43.0


From 33c379592a415acc11a130cdb24af5e15689a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:27 +0000
Subject: [PATCH 13/24] fix: Encoded_File: reading past the end returns 0 bytes

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..a2abe43 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -14,7 +14,7 @@ namespace joedb
   const int64_t start = offset;
   const int64_t end = offset + int64_t(size);
 
-  int64_t global_end = 0;
+  int64_t global_end = offset;
 
   for (auto b: db.get_buffer_table())
   {
-- 
2.43.0


From 1a758de7589c6f8b4eb522f47cba12bd1f51ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 14/24] fix: Encoded_File: forget the decoded block when
 decoding fails

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index a2abe43..868a481 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -32,6 +32,8 @@ namespace joedb
 
     if (b != decoded_buffer)
     {
+     decoded_buffer = db::encoded_file::id_of_buffer{Record_Id::null};
+
      if (int64_t(read_buffer.size()) < db.get_size(b))
       read_buffer.resize(size_t(db.get_size(b)));
 
-- 
2.43.0


From 99319c2a715b41cba8d4ea781ed6517e54c3250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:39 +0000
Subject: [PATCH 15/24] fix: get_time_string: do not read an uninitialised
 buffer for long or invalid dates

---
 src/joedb/ui/get_time_string.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/joedb/ui/get_time_string.cpp b/src/joedb/ui/get_time_string.cpp
index fde31b9..5271543 100644
--- a/src/joedb/ui/get_time_string.cpp
+++ b/src/joedb/ui/get_time_string.cpp
@@ -8,18 +8,28 @@ namespace joedb
  std::string get_time_string(int64_t timestamp)
  /////////////////////////////////////////////////////////////////////////////
  {
-  constexpr size_t buffer_size = 24;
+  constexpr size_t buffer_size = 64;
   char buffer[buffer_size];
   const time_t stamp = time_t(timestamp);
   struct tm tm;
 #if defined(__unix__)
-  gmtime_r(&stamp, &tm);
+  if (!gmtime_r(&stamp, &tm))
+   return std::string();
 #else
-  tm = *std::gmtime(&stamp);
+  const struct tm * const result = std::gmtime(&stamp);
+  if (!result)
+   return std::string();
+  tm = *result;
 #endif
-  std::strftime(buffer, buffer_size, "%Y-%m-%d %H:%M:%S GMT", &tm);
+  const size_t size = std::strftime
+  (
+   buffer,
+   buffer_size,
+   "%Y-%m-%d %H:%M:%S GMT",
+   &tm
+  );
 
-  return std::string(buffer);
+  return std::string(buffer, size);
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 385e4436394c61f7a46d9a35a010e34a4f3e838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:39 +0000
Subject: [PATCH 16/24] fix: read_float32 and read_float64: read inf and nan,
 as they are written

---
 src/joedb/ui/type_io.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 src/joedb/ui/type_io.h   | 14 ++++++++++++--
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index a409973..7e8bda4 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -1,6 +1,7 @@
 #include "joedb/ui/type_io.h"
 #include "external/wide_char_display_width.h"
 
+#include <cstdlib>
 #include <iostream>
 #include <string>
 
@@ -211,6 +212,44 @@ namespace joedb
   return int8_t(result);
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ template<typename T> static T read_floating_point
+ /////////////////////////////////////////////////////////////////////////////
+ (
+  std::istream &in,
+  T (*parse)(const char *, char **)
+ )
+ {
+  // operator>> can not read inf and nan
+  std::string word;
+  in >> word;
+
+  char *end;
+  const T value = parse(word.c_str(), &end);
+
+  if (word.empty() || *end != 0)
+  {
+   in.setstate(std::ios::failbit);
+   return T();
+  }
+
+  return value;
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ float read_float32(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_floating_point<float>(in, std::strtof);
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ double read_float64(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_floating_point<double>(in, std::strtod);
+ }
+
  /////////////////////////////////////////////////////////////////////////////
  bool read_boolean(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index 70bf671..103eaf8 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -75,12 +75,22 @@ namespace joedb
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
  PRIMITIVE_IO(Record_Id, reference)
- PRIMITIVE_IO(float, float32)
- PRIMITIVE_IO(double, float64)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
 
+ float read_float32(std::istream &in);
+ inline void write_float32(std::ostream &out, float value)
+ {
+  out << value;
+ }
+
+ double read_float64(std::istream &in);
+ inline void write_float64(std::ostream &out, double value)
+ {
+  out << value;
+ }
+
  /// @}
 }
 
-- 
2.43.0


From 75b8ae80a7c6c123c2b8889474025624f040b022 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 17/24] fix: Server_Connection: use the shared buffer only
 while holding the channel lock

---
 src/joedb/concurrency/Server_Connection.cpp | 29 ++++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..cd96270 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,12 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
-
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,25 +51,31 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
-  buffer.index = 0;
-  buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
-  buffer.write<int64_t>(checkpoint);
-  buffer.write
+  const char hash_type = content_check == Content_Check::fast ? 'H' : 'I';
+
+  const SHA_256::Hash hash =
   (
    content_check == Content_Check::fast
    ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
    : Journal_Hasher::get_full_hash(client_journal, checkpoint)
   );
 
+  char reply;
+
   {
    Lock<Channel&> lock(channel);
+   buffer.index = 0;
+   buffer.write<char>(hash_type);
+   buffer.write<int64_t>(checkpoint);
+   buffer.write(hash);
    lock->write(buffer.data, buffer.index);
    lock->read(buffer.data, 1);
+   reply = buffer.data[0];
   }
 
-  log(std::string("hash result: ") + buffer.data[0]);
+  log(std::string("hash result: ") + reply);
 
-  if (buffer.data[0] == 'h')
+  if (reply == 'h')
    content_mismatch();
 
   return server_checkpoint;
@@ -189,16 +195,19 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
+  char reply;
+
   {
    Lock<Channel&> lock(channel);
    buffer.data[0] = 'M';
    lock->write(buffer.data, 1);
    lock->read(buffer.data, 1);
+   reply = buffer.data[0];
   }
 
-  log(std::string() + buffer.data[0]);
+  log(std::string() + reply);
 
-  if (buffer.data[0] != 'M')
+  if (reply != 'M')
    throw Disconnection("unlock error: unexpected reply");
  }
 }
-- 
2.43.0


From a5ae161d326c31766630bba38f7c91e642e9bb15 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 18/24] fix: Server_Connection: check the reply to a hash check
 and to a read

---
 src/joedb/concurrency/Server_Connection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index cd96270..3c2bc3b 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -18,7 +18,9 @@ namespace joedb
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
-  buffer.index = 1;
+  buffer.index = 0;
+  if (buffer.read<char>() != 'r')
+   throw Disconnection("pread error: unexpected reply");
   const int64_t until = buffer.read<int64_t>();
 
   if (until < offset || until > offset + int64_t(size))
@@ -77,6 +79,8 @@ namespace joedb
 
   if (reply == 'h')
    content_mismatch();
+  else if (reply != hash_type)
+   throw Disconnection("handshake error: unexpected reply");
 
   return server_checkpoint;
  }
-- 
2.43.0


From fa5c854bed694704c78e152a7c079f3f4c067288 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:46:34 +0000
Subject: [PATCH 19/24] fix: Writable_Client: unlock the connection when
 reading the journal fails

---
 src/joedb/concurrency/Writable_Client.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..2df22bd 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -92,7 +92,15 @@ namespace joedb
      get_writable_journal()
     );
 
-    read_journal();
+    try
+    {
+     read_journal();
+    }
+    catch (...)
+    {
+     connection.unlock();
+     throw;
+    }
    }
 
   public:
-- 
2.43.0


From 2ca9662f0756c9e3a6b7fb4d0133ade08263b5be Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:46:34 +0000
Subject: [PATCH 20/24] fix: Writable_Client: refuse to mix local changes with
 remote ones

---
 src/joedb/concurrency/Writable_Client.h | 57 ++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 2df22bd..cdf49a4 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -83,13 +83,56 @@ namespace joedb
      get_writable_journal().hard_checkpoint();
    }
 
+   void pull_from_connection
+   (
+    Lock_Action lock_action,
+    std::chrono::milliseconds wait
+   )
+   {
+    const bool ahead = get_journal_checkpoint() > connection_checkpoint;
+
+    const int64_t pulled_checkpoint = connection.pull
+    (
+     lock_action,
+     ahead ? Data_Transfer::without_data : Data_Transfer::with_data,
+     get_writable_journal(),
+     wait
+    );
+
+    if (ahead && pulled_checkpoint != connection_checkpoint)
+    {
+     //
+     // The connection changed, and the journal has data that was not pushed:
+     // make sure they did not diverge before going any further.
+     //
+     try
+     {
+      connection.handshake(journal, Content_Check::fast);
+
+      connection_checkpoint = connection.pull
+      (
+       Lock_Action::no_locking,
+       Data_Transfer::with_data,
+       get_writable_journal()
+      );
+     }
+     catch (...)
+     {
+      if (lock_action == Lock_Action::lock_before)
+       connection.unlock();
+      throw;
+     }
+    }
+    else
+     connection_checkpoint = pulled_checkpoint;
+   }
+
    void start_transaction()
    {
-    connection_checkpoint = connection.pull
+    pull_from_connection
     (
      Lock_Action::lock_before,
-     Data_Transfer::with_data,
-     get_writable_journal()
+     std::chrono::milliseconds(0)
     );
 
     try
@@ -139,13 +182,7 @@ namespace joedb
 
     const Tail_Exclusive_Lock lock(get_writable_journal());
 
-    connection_checkpoint = connection.pull
-    (
-     Lock_Action::no_locking,
-     Data_Transfer::with_data,
-     get_writable_journal(),
-     wait
-    );
+    pull_from_connection(Lock_Action::no_locking, wait);
 
     read_journal();
 
-- 
2.43.0


From e60608f47e0434105f09043c77534c14c6863d0f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:50:57 +0000
Subject: [PATCH 21/24] fix: Server_Client: start the keep-alive thread after
 connecting, stop it before disconnecting

---
 src/joedb/concurrency/Server_Client.cpp | 12 +++++-------
 src/joedb/concurrency/Server_Client.h   |  6 ++++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..aa9f0bd 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -116,26 +116,24 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
   pullonly_server(false)
  {
   connect();
+  keep_alive.emplace(*this, keep_alive_interval);
  }
 
  ////////////////////////////////////////////////////////////////////////////
  void Server_Client::disconnect()
  ////////////////////////////////////////////////////////////////////////////
  {
-  {
-   Lock<Channel&> lock(channel);
-   buffer.data[0] = 'Q';
-   lock->write(buffer.data, 1);
-  }
+  keep_alive.reset();
 
-  keep_alive.stop();
+  Lock<Channel&> lock(channel);
+  buffer.data[0] = 'Q';
+  lock->write(buffer.data, 1);
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..6380ecb 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -9,6 +9,7 @@
 #include "joedb/error/Logger.h"
 
 #include <chrono>
+#include <optional>
 
 namespace joedb
 {
@@ -19,8 +20,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
-
    void connect();
    void disconnect();
 
@@ -35,6 +34,9 @@ namespace joedb
    bool pullonly_server;
    int64_t server_checkpoint;
 
+   // Uses the members above: must be started last, and stopped first
+   std::optional<Keep_Alive_Thread> keep_alive;
+
    void download
    (
     Async_Writer &writer,
-- 
2.43.0


From 366f2ac07f5b3a12145ab5c32e9ce9f566e6fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:52 +0000
Subject: [PATCH 22/24] fix: Writable_Client: pull data only when the whole
 journal was compared

---
 src/joedb/concurrency/Writable_Client.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index cdf49a4..6b138e0 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -107,14 +107,22 @@ namespace joedb
      //
      try
      {
-      connection.handshake(journal, Content_Check::fast);
-
-      connection_checkpoint = connection.pull
+      connection_checkpoint = connection.handshake
       (
-       Lock_Action::no_locking,
-       Data_Transfer::with_data,
-       get_writable_journal()
+       journal,
+       Content_Check::fast
       );
+
+      // Pull only if the whole journal was compared
+      if (connection_checkpoint > get_journal_checkpoint())
+      {
+       connection_checkpoint = connection.pull
+       (
+        Lock_Action::no_locking,
+        Data_Transfer::with_data,
+        get_writable_journal()
+       );
+      }
      }
      catch (...)
      {
-- 
2.43.0


From 6d96b6041d2366cc835116f8fe6b5a3ad578ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:18 +0000
Subject: [PATCH 23/24] fix: Server: a refused push must not write with the
 writer of an earlier push

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..cf5d44f 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset();
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From 10788b9cd1112991e4aeeef913c895ae563e6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:33 +0000
Subject: [PATCH 24/24] fix: Server: a timeout handler run late must not touch
 a session that has ended or locked again

---
 src/joedb/concurrency/Server.cpp | 11 +++++++++--
 src/joedb/concurrency/Server.h   |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index cf5d44f..1e4696e 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -125,6 +125,7 @@ namespace joedb
     log("unlock");
 
    locking = false;
+   ++*lock_timeout_id;
    lock_timeout_timer.cancel();
 
    if (get_server().lock_waiters.empty())
@@ -150,9 +151,15 @@ namespace joedb
    lock_timeout_timer.expires_after(get_server().lock_timeout);
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    [
+     this,
+     timeout_id = ++*lock_timeout_id,
+     weak_id = std::weak_ptr<int64_t>(lock_timeout_id)
+    ]
+    (std::error_code error)
     {
-     if (!error)
+     const auto current_id = weak_id.lock();
+     if (!error && current_id && *current_id == timeout_id)
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..31359d8 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -6,6 +6,7 @@
 
 #include <deque>
 #include <map>
+#include <memory>
 #include <optional>
 
 namespace joedb
@@ -28,6 +29,8 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     // a timeout handler may be run late: after a cancel, or after the session
+     std::shared_ptr<int64_t> lock_timeout_id = std::make_shared<int64_t>(0);
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0

