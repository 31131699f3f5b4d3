From 969101cd3c42cea5fd52b8859f8a4767db31c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 01/68] fix: call init() on the handler for input files without
 objects

---
 include/osmium/input.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d444918..d17791b 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -106,7 +106,8 @@ namespace Osmium {
             }
 
             void call_after_and_before_on_handler(osm_object_type_t current_object_type) {
-                if (current_object_type != m_last_object_type) {
+                // UNKNOWN is the end of the input; without any objects init() is still due
+                if (current_object_type != m_last_object_type || current_object_type == UNKNOWN) {
                     switch (m_last_object_type) {
                         case UNKNOWN:
                             m_handler.init(m_meta);
-- 
2.43.0


From c98b96c914bb10bf10ad64e0cd9bb5cba9926eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 02/68] fix: lon/lat attributes on ways and relations must not
 change the last node

---
 include/osmium/input/xml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 985acd7..c3d682e 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -149,11 +149,11 @@ namespace Osmium {
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
-                        if (this->m_node) {
+                        if (&obj == this->m_node.get()) {
                             this->m_node->lon(atof(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
-                        if (this->m_node) {
+                        if (&obj == this->m_node.get()) {
                             this->m_node->lat(atof(attrs[count+1]));
                         }
                     } else {
-- 
2.43.0


From d7b8ff897f9e974abe811456a50c15f0829af12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 03/68] fix: read timestamps right for any PBF date granularity

---
 include/osmium/input/pbf.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index d987e6c..365e2b6 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -58,7 +58,7 @@ namespace Osmium {
             OSMPBF::BlobHeader     m_pbf_blob_header;
             OSMPBF::PrimitiveBlock m_pbf_primitive_block;
 
-            int64_t m_date_factor;
+            int64_t m_date_granularity;
 
         public:
 
@@ -75,7 +75,7 @@ namespace Osmium {
                 m_pbf_blob(),
                 m_pbf_blob_header(),
                 m_pbf_primitive_block(),
-                m_date_factor() {
+                m_date_granularity() {
                 GOOGLE_PROTOBUF_VERIFY_VERSION;
             }
 
@@ -95,7 +95,7 @@ namespace Osmium {
                                 throw std::runtime_error("Failed to parse PrimitiveBlock.");
                             }
                             const OSMPBF::StringTable& stringtable = m_pbf_primitive_block.stringtable();
-                            m_date_factor = m_pbf_primitive_block.date_granularity() / 1000;
+                            m_date_granularity = m_pbf_primitive_block.date_granularity();
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
@@ -195,7 +195,7 @@ namespace Osmium {
                     if (pbf_node.has_info()) {
                         node.version(pbf_node.info().version())
                         .changeset(pbf_node.info().changeset())
-                        .timestamp(pbf_node.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
                         .user(stringtable.s(pbf_node.info().user_sid()).data());
                         if (pbf_node.info().has_visible()) {
@@ -233,7 +233,7 @@ namespace Osmium {
                     if (pbf_way.has_info()) {
                         way.version(pbf_way.info().version())
                         .changeset(pbf_way.info().changeset())
-                        .timestamp(pbf_way.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
                         .user(stringtable.s(pbf_way.info().user_sid()).data());
                         if (pbf_way.info().has_visible()) {
@@ -274,7 +274,7 @@ namespace Osmium {
                     if (pbf_relation.has_info()) {
                         relation.version(pbf_relation.info().version())
                         .changeset(pbf_relation.info().changeset())
-                        .timestamp(pbf_relation.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
                         .user(stringtable.s(pbf_relation.info().user_sid()).data());
                         if (pbf_relation.info().has_visible()) {
@@ -342,7 +342,7 @@ namespace Osmium {
 
                         node.version(dense.denseinfo().version(entity));
                         node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_factor);
+                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
                         node.user(stringtable.s(last_dense_user_sid).data());
 
-- 
2.43.0


From 7d6b7c7b7b12d43d51a6c045bd5d62efb3ddfb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 04/68] fix: report PBF files truncated inside the BlobHeader
 size

---
 include/osmium/input/pbf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 365e2b6..822f7f0 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -396,6 +396,9 @@ namespace Osmium {
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
+                        if (offset != 0) {
+                            throw std::runtime_error("unexpected end of file in BlobHeader size");
+                        }
                         return false; // EOF
                     }
                     offset += nread;
-- 
2.43.0


From 042d3f4ec9ff2244d8a1ca379242b0cff665323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 05/68] fix: release the input when parsing fails

---
 include/osmium.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium.hpp b/include/osmium.hpp
index 74817e3..becd986 100644
--- a/include/osmium.hpp
+++ b/include/osmium.hpp
@@ -70,7 +70,12 @@ namespace Osmium {
 #endif // OSMIUM_WITH_XML_INPUT
             }
 
-            input->parse();
+            try {
+                input->parse();
+            } catch (...) {
+                delete input;
+                throw;
+            }
             delete input;
         }
 
-- 
2.43.0


From df1858dc9298dec90ada47d7083459f1f726914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 06/68] fix: PBF blocks with more than 65535 different strings
 were written with wrong strings

---
 include/osmium/output/pbf.hpp        | 4 ++--
 include/osmium/utils/stringtable.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9162f24..d7178db 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -382,7 +382,7 @@ namespace Osmium {
                         // is always unused). String-ids of 0 are thus kept alone.
                         for (int i=0, l=dense->keys_vals_size(); i<l; i++) {
                             // map interim string-ids > 0 to real string ids
-                            uint16_t sid = dense->keys_vals(i);
+                            uint32_t sid = dense->keys_vals(i);
                             if (sid > 0) {
                                 dense->set_keys_vals(i, string_table.map_string_id(sid));
                             }
@@ -396,7 +396,7 @@ namespace Osmium {
                             // iterate over all username string-ids
                             for (int i=0, l= denseinfo->user_sid_size(); i<l; i++) {
                                 // map interim string-ids > 0 to real string ids
-                                uint16_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
+                                uint32_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
 
                                 // delta encode the string-id
                                 denseinfo->set_user_sid(i, m_delta_user_sid.update(user_sid));
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 69063bd..3df5678 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -54,7 +54,7 @@ namespace Osmium {
     class StringTable {
 
         /// type for string IDs (interim and final)
-        typedef uint16_t string_id_t;
+        typedef uint32_t string_id_t;
 
         /**
          * this is the struct used to build the StringTable. It is stored as
@@ -74,7 +74,7 @@ namespace Osmium {
          */
         struct string_info {
             /// number of occurrences of this string
-            uint16_t count;
+            uint32_t count;
 
             /// an intermediate-id
             string_id_t interim_id;
-- 
2.43.0


From 8ac7abe20d0389d4a0c9d97262b42e73e6e55533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 07/68] fix: round the bounding box in the PBF header instead
 of truncating it

---
 include/osmium/output/pbf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index d7178db..a8238d4 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -886,10 +886,10 @@ namespace Osmium {
 
                 if (meta.bounds().defined()) {
                     OSMPBF::HeaderBBox* bbox = pbf_header_block.mutable_bbox();
-                    bbox->set_left(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_bottom(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution);
-                    bbox->set_right(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_top(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution);
+                    bbox->set_left(round(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_bottom(round(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution));
+                    bbox->set_right(round(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_top(round(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution));
                 }
 
                 store_header_block();
-- 
2.43.0


From e042d32cd5ddef10b5c9f8de8365b240eccd3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 08/68] fix: write PBF blobs completely when the operating
 system writes only a part

---
 include/osmium/output/pbf.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index a8238d4..6c215cc 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -346,14 +346,22 @@ namespace Osmium {
                 uint32_t sz = htonl(blobhead.size());
 
                 // write to the file: the 4-byte BlobHeader-Size followed by the BlobHeader followed by the Blob
-                if (::write(fd(), &sz, sizeof(sz)) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), blobhead.c_str(), blobhead.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), data.c_str(), data.size()) < 0) {
-                    throw std::runtime_error("file error");
+                write_all(reinterpret_cast<const char*>(&sz), sizeof(sz));
+                write_all(blobhead.c_str(), blobhead.size());
+                write_all(data.c_str(), data.size());
+            }
+
+            /**
+             * Write all data to the file, the operating system might need several calls for it.
+             */
+            void write_all(const char* data, size_t size) {
+                while (size > 0) {
+                    const ssize_t written = ::write(fd(), data, size);
+                    if (written <= 0) {
+                        throw std::runtime_error("file error");
+                    }
+                    data += written;
+                    size -= written;
                 }
             }
 
-- 
2.43.0


From 9ac13382137cec8cb626ca45f68bbf8e3d5d8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 09/68] fix: report errors when writing the last part of an XML
 file

---
 include/osmium/output/xml.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 48632d3..4a06619 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -158,6 +158,12 @@ namespace Osmium {
                     open_close_op_tag('\0');
                 }
                 check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </osm> or </osmChange>
+                // freeing the writer would ignore errors and short writes
+                int written;
+                do {
+                    written = xmlTextWriterFlush(m_xml_writer);
+                    check_for_error(written);
+                } while (written > 0);
                 xmlFreeTextWriter(m_xml_writer);
                 m_file.close();
             }
-- 
2.43.0


From 06f305ddfef48847acee3441c76ee89103cb3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 10/68] fix: report a failed subprocess only once

---
 include/osmium/osmfile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 316ff14..abdd53e 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -541,13 +541,14 @@ namespace Osmium {
 
             if (m_childpid) {
                 int status;
-                pid_t pid = waitpid(m_childpid, &status, 0);
+                const pid_t childpid = m_childpid;
+                m_childpid = 0;
+                pid_t pid = waitpid(childpid, &status, 0);
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
                     // so we better set errno=0
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
-                m_childpid = 0;
             }
         }
 
-- 
2.43.0


From d871519b4c1a6d93eda71a57a9cabaf6d9de14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 11/68] fix: assigning to or opening an open OSMFile must not
 leak its descriptor and child

---
 include/osmium/osmfile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index abdd53e..527c3b3 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -517,8 +517,7 @@ namespace Osmium {
          * copied.
          */
         OSMFile& operator=(const OSMFile& orig) {
-            m_fd       = -1;
-            m_childpid = 0;
+            close();
             m_type     = orig.type();
             m_encoding = orig.encoding();
             m_filename = orig.filename();
@@ -660,10 +659,12 @@ namespace Osmium {
         }
 
         void open_for_input() {
+            close();
             m_fd = m_encoding->decompress() == "" ? open_input_file_or_url() : execute(m_encoding->decompress(), 0);
         }
 
         void open_for_output() {
+            close();
             m_fd = m_encoding->compress() == "" ? open_output_file() : execute(m_encoding->compress(), 1);
         }
 
-- 
2.43.0


From 795cc215a0b8cca583da4fa3e1edc547b5761209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 12/68] fix: children must not keep the pipes of other OSMFiles
 open

---
 include/osmium/osmfile.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 527c3b3..f9a4a09 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -348,6 +348,8 @@ namespace Osmium {
                 }
             }
             // parent
+            // other children must not inherit our end of the pipe
+            ::fcntl(pipefd[input], F_SETFD, FD_CLOEXEC);
             m_childpid = pid;
             ::close(pipefd[1-input]);
             return pipefd[input];
-- 
2.43.0


From a6882a743dbd204f3abfeb7149c618bc3f9f17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 13/68] fix: report when the decompression or download program
 fails

---
 include/osmium/input.hpp     | 9 +++++++++
 include/osmium/input/pbf.hpp | 1 +
 include/osmium/input/xml.hpp | 1 +
 3 files changed, 11 insertions(+)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d17791b..b20b391 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -165,6 +165,15 @@ namespace Osmium {
                 return m_file.fd();
             }
 
+            /**
+             * Close the file after everything was read from it.
+             *
+             * @throws IOError if the program the data came from failed.
+             */
+            void close_file() {
+                m_file.close();
+            }
+
             const Osmium::OSMFile& file() const {
                 return m_file;
             }
diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 822f7f0..6826fdd 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -142,6 +142,7 @@ namespace Osmium {
 //                            std::cerr << "Ignoring unknown blob type (" << m_pbf_blob_header.type().data() << ").\n";
                         }
                     }
+                    this->close_file();
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
                     // if a handler says to stop reading, we do
diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index c3d682e..c4d859b 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -102,6 +102,7 @@ namespace Osmium {
                         }
                     } while (!done);
                     XML_ParserFree(parser);
+                    this->close_file();
 
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
-- 
2.43.0


From 3f378db3e3ed25a2d199dde89fe458fc12e3b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 14/68] fix: dots in directory names are no file suffix

---
 include/osmium/osmfile.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index f9a4a09..8b5cf69 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -651,7 +651,9 @@ namespace Osmium {
         }
 
         std::string filename_without_suffix() const {
-            return m_filename.substr(0, m_filename.find_first_of('.'));
+            // only the last component of the path has a suffix
+            const size_t n = m_filename.find_last_of('/');
+            return m_filename.substr(0, m_filename.find_first_of('.', n == std::string::npos ? 0 : n + 1));
         }
 
         std::string filename_with_default_suffix() const {
-- 
2.43.0


From e51b9518be94abee58c9f0fb5148f268787cdf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 15/68] fix: a file name without a dot has no suffix

---
 include/osmium/osmfile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 8b5cf69..7087e95 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -456,7 +456,8 @@ namespace Osmium {
             } else {
                 ++n;
             }
-            std::string suffix(filename.substr(filename.find_first_of('.', n)+1));
+            n = filename.find_first_of('.', n);
+            std::string suffix(n == std::string::npos ? "" : filename.substr(n+1));
 
             set_type_and_encoding(suffix);
         }
-- 
2.43.0


From 413e81b10049e7a5073c4211346339e144aedf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 16/68] fix: count nodes and strings when limiting the size of
 PBF blobs

---
 include/osmium/output/pbf.hpp        | 19 ++++++++++++++++++-
 include/osmium/utils/stringtable.hpp | 15 ++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 6c215cc..f579e02 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -302,6 +302,7 @@ namespace Osmium {
 
                 // serialize the protobuf message to the string
                 msg.SerializeToString(&data);
+                check_blob_size(data);
 
                 if (use_compression()) {
                     // compress using zlib
@@ -328,6 +329,7 @@ namespace Osmium {
                 // serialize and clear the Blob
                 pbf_blob.SerializeToString(&data);
                 pbf_blob.Clear();
+                check_blob_size(data);
 
                 // set the header-type to the supplied string on the BlobHeader
                 pbf_blob_header.set_type(type);
@@ -351,6 +353,15 @@ namespace Osmium {
                 write_all(data.c_str(), data.size());
             }
 
+            /**
+             * A blob over the size limit can not be read by anybody, so don't write it.
+             */
+            void check_blob_size(const std::string& data) {
+                if (data.size() > static_cast<size_t>(OSMPBF::max_uncompressed_blob_size)) {
+                    throw std::runtime_error("data too large for PBF blob");
+                }
+            }
+
             /**
              * Write all data to the file, the operating system might need several calls for it.
              */
@@ -585,7 +596,7 @@ namespace Osmium {
             void check_block_contents_counter() {
                 if (primitive_block_contents >= max_block_contents) {
                     store_primitive_block();
-                } else if (primitive_block_size > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
+                } else if (primitive_block_size + string_table.bytes() > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
                     if (debug && has_debug_level(1)) {
                         std::cerr << "storing primitive_block with only " << primitive_block_contents << " items, because its ByteSize (" << primitive_block_size << ") reached " <<
                                   (static_cast<float>(primitive_block_size) / static_cast<float>(OSMPBF::max_uncompressed_blob_size) * 100.0) << "% of the maximum blob-size" << std::endl;
@@ -616,6 +627,9 @@ namespace Osmium {
                 // the ints to the pbf-object
                 pbf_node->set_lon(lonlat2int(node->lon()));
                 pbf_node->set_lat(lonlat2int(node->lat()));
+
+                // count up blob size by the size of the Node
+                primitive_block_size += pbf_node->ByteSize();
             }
 
             /**
@@ -649,6 +663,9 @@ namespace Osmium {
                 }
                 dense->add_keys_vals(0);
 
+                // count up blob size by the maximum size of the varints for this node
+                primitive_block_size += 80 + 10 * node->tags().size();
+
                 if (should_add_metadata()) {
                     // add a DenseInfo-Section to the PrimitiveGroup
                     OSMPBF::DenseInfo* denseinfo = dense->mutable_denseinfo();
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 3df5678..24641d9 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -96,12 +96,16 @@ namespace Osmium {
 
         int m_size;
 
+        /// upper limit for the number of bytes the stored table needs
+        uint32_t m_bytes;
+
     public:
 
         StringTable() :
             m_strings(),
             m_id2id_map(),
-            m_size(0) {
+            m_size(0),
+            m_bytes(0) {
         }
 
         friend bool operator<(const string_info& lhs, const string_info& rhs) {
@@ -116,6 +120,7 @@ namespace Osmium {
             string_info& info = m_strings[string];
             if (info.interim_id == 0) {
                 info.interim_id = ++m_size;
+                m_bytes += string.size() + 6; // string, tag, and length
             } else {
                 info.count++;
             }
@@ -172,6 +177,14 @@ namespace Osmium {
             m_strings.clear();
             m_id2id_map.clear();
             m_size = 0;
+            m_bytes = 0;
+        }
+
+        /**
+         * Upper limit for the number of bytes the stored StringTable will need.
+         */
+        uint32_t bytes() const {
+            return m_bytes;
         }
 
     }; // class StringTable
-- 
2.43.0


From 4349eb0b1c59ed784d7a8c97b25d823527c1636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 17/68] fix: close the pipe when fork fails

---
 include/osmium/osmfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 7087e95..dae5d80 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -318,7 +318,10 @@ namespace Osmium {
             }
             pid_t pid = fork();
             if (pid < 0) {
-                throw SystemError("Can't fork", errno);
+                const int error = errno;
+                ::close(pipefd[0]);
+                ::close(pipefd[1]);
+                throw SystemError("Can't fork", error);
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
-- 
2.43.0


From c60f18d28c3db38adf85f58a04071d908bc7e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 18/68] fix: a child that cannot start must not run the cleanup
 of the parent

exit() flushed the stdio buffers inherited from the parent into the pipe or
the output file.
---
 include/osmium/osmfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index dae5d80..f28af1b 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -331,22 +331,22 @@ namespace Osmium {
                     }
                 }
                 if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
-                    exit(1);
+                    _exit(1);
                 }
 
                 if (input == 0) {
                     ::open("/dev/null", O_RDONLY); // stdin
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), m_filename.c_str(), NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 } else {
                     if (::open(m_filename.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0666) != 1) {
-                        exit(1);
+                        _exit(1);
                     }
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), 0, NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 }
             }
-- 
2.43.0


From f818765b15bc06b3fbc8ffdcb9f58a066fd0302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 19/68] fix: report PBF blobs with an invalid uncompressed size
 instead of aborting

---
 include/osmium/input/pbf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 6826fdd..b7cc823 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -452,7 +452,9 @@ namespace Osmium {
                     return array_t(m_pbf_blob.raw().data(), m_pbf_blob.raw().size());
                 } else if (m_pbf_blob.has_zlib_data()) {
                     unsigned long raw_size = m_pbf_blob.raw_size();
-                    assert(raw_size <= static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size));
+                    if (raw_size > static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size)) {
+                        throw std::runtime_error("invalid uncompressed blob size");
+                    }
                     if (uncompress(m_unpack_buffer, &raw_size, reinterpret_cast<const unsigned char*>(m_pbf_blob.zlib_data().data()), m_pbf_blob.zlib_data().size()) != Z_OK || m_pbf_blob.raw_size() != static_cast<long>(raw_size)) {
                         throw std::runtime_error("zlib error");
                     }
-- 
2.43.0


From 55bd5f1f951aa5aefb3e6afacccdfb65c20fa89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 20/68] fix: a child must not keep its own pipe open when many
 files are open

Only the first 32 descriptors were closed in the child, so with more open
files the compression program never saw the end of its input.
---
 include/osmium/osmfile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index f28af1b..ecc4e9c 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -316,6 +316,8 @@ namespace Osmium {
             if (pipe(pipefd) < 0) {
                 throw SystemError("Can't create pipe", errno);
             }
+            // no child, neither this one nor later ones, must inherit our end of the pipe
+            ::fcntl(pipefd[input], F_SETFD, FD_CLOEXEC);
             pid_t pid = fork();
             if (pid < 0) {
                 const int error = errno;
@@ -351,8 +353,6 @@ namespace Osmium {
                 }
             }
             // parent
-            // other children must not inherit our end of the pipe
-            ::fcntl(pipefd[input], F_SETFD, FD_CLOEXEC);
             m_childpid = pid;
             ::close(pipefd[1-input]);
             return pipefd[input];
-- 
2.43.0


From f65d02a6007b874f26dfcc7c4d4cd4fb0cc2101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 21/68] fix: files named http or https are no URLs

---
 include/osmium/osmfile.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index ecc4e9c..b74f80a 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -403,6 +403,13 @@ namespace Osmium {
             }
         }
 
+        /**
+         * Is the filename actually a URL?
+         */
+        bool is_url() const {
+            return m_filename.compare(0, 5, "http:") == 0 || m_filename.compare(0, 6, "https:") == 0;
+        }
+
         /**
          * Open OSMFile for reading. Handles URLs or normal files. URLs
          * are opened by executing the "curl" program (which must be installed)
@@ -413,8 +420,7 @@ namespace Osmium {
          * @throws IOError if the file can't be opened.
          */
         int open_input_file_or_url() {
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
-            if (protocol == "http" || protocol == "https") {
+            if (is_url()) {
                 return execute("curl", 0);
             } else {
                 return open_input_file();
@@ -446,8 +452,7 @@ namespace Osmium {
             }
 
             // filename is actually a URL
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
-            if (protocol == "http" || protocol == "https") {
+            if (is_url()) {
                 default_settings_for_url();
                 return;
             }
-- 
2.43.0


From ddfa8788913d8d76466729c36da0eaeb8da185ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 22/68] fix: skip PBF blobs of unknown type whatever they
 contain

---
 include/osmium/input/pbf.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index b7cc823..edc8651 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -88,6 +88,12 @@ namespace Osmium {
             void parse() {
                 try {
                     while (read_blob_header()) {
+                        if (m_pbf_blob_header.type() != "OSMData" && m_pbf_blob_header.type() != "OSMHeader") {
+                            // ignore blobs of unknown type whatever they contain
+                            read_blob_data(m_pbf_blob_header.datasize());
+                            continue;
+                        }
+
                         const array_t a = read_blob(m_pbf_blob_header.datasize());
 
                         if (m_pbf_blob_header.type() == "OSMData") {
@@ -99,7 +105,7 @@ namespace Osmium {
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
-                        } else if (m_pbf_blob_header.type() == "OSMHeader") {
+                        } else {
                             OSMPBF::HeaderBlock pbf_header_block;
                             if (!pbf_header_block.ParseFromArray(a.first, a.second)) {
                                 throw std::runtime_error("Failed to parse HeaderBlock.");
@@ -138,8 +144,6 @@ namespace Osmium {
                                 this->meta().bounds().extend(Osmium::OSM::Position(bbox.left()  / resolution_convert, bbox.bottom() / resolution_convert));
                                 this->meta().bounds().extend(Osmium::OSM::Position(bbox.right() / resolution_convert, bbox.top()    / resolution_convert));
                             }
-                        } else {
-//                            std::cerr << "Ignoring unknown blob type (" << m_pbf_blob_header.type().data() << ").\n";
                         }
                     }
                     this->close_file();
@@ -428,9 +432,9 @@ namespace Osmium {
             }
 
             /**
-            * Read a (possibly compressed) blob of data. If the blob is compressed, it is uncompressed.
+            * Read the data of a blob into the input buffer.
             */
-            array_t read_blob(const int size) {
+            void read_blob_data(const int size) {
                 if (size < 0 || size > OSMPBF::max_uncompressed_blob_size) {
                     std::ostringstream errmsg;
                     errmsg << "invalid blob size: " << size;
@@ -444,6 +448,13 @@ namespace Osmium {
                     }
                     offset += nread;
                 }
+            }
+
+            /**
+            * Read a (possibly compressed) blob of data. If the blob is compressed, it is uncompressed.
+            */
+            array_t read_blob(const int size) {
+                read_blob_data(size);
                 if (!m_pbf_blob.ParseFromArray(m_input_buffer, size)) {
                     throw std::runtime_error("failed to parse blob");
                 }
-- 
2.43.0


From 02c82f4a67137a70f3f9c3b2ad4753cd88d3e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 23/68] fix: setting an ID again in the vector store must
 change its value

---
 include/osmium/storage/byid/vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/vector.hpp b/include/osmium/storage/byid/vector.hpp
index f28376b..6ad51d4 100644
--- a/include/osmium/storage/byid/vector.hpp
+++ b/include/osmium/storage/byid/vector.hpp
@@ -79,7 +79,11 @@ namespace Osmium {
                 }
 
                 void set(const uint64_t id, const TValue value) {
-                    m_items.push_back(item_t(id, value));
+                    if (!m_items.empty() && m_items.back().id == static_cast<osm_object_id_t>(id)) {
+                        m_items.back().value = value;
+                    } else {
+                        m_items.push_back(item_t(id, value));
+                    }
                 }
 
                 const TValue operator[](const uint64_t id) const {
-- 
2.43.0


From af7ff3d02fc31ad4a31c46f86dd84fee72b4d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 24/68] fix: clearing the map store must free its memory

---
 include/osmium/storage/byid/stl_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/storage/byid/stl_map.hpp b/include/osmium/storage/byid/stl_map.hpp
index 1b43f48..454f6a9 100644
--- a/include/osmium/storage/byid/stl_map.hpp
+++ b/include/osmium/storage/byid/stl_map.hpp
@@ -65,6 +65,7 @@ namespace Osmium {
                 }
 
                 void clear() {
+                    m_items.clear();
                 }
 
             private:
-- 
2.43.0


From fc6f129e8f9b607db08b7607eb5216cf12476add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 25/68] fix: a sparse table with a grow size of zero must still
 grow

---
 include/osmium/storage/byid/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/sparse_table.hpp b/include/osmium/storage/byid/sparse_table.hpp
index 308b0cf..6ca2974 100644
--- a/include/osmium/storage/byid/sparse_table.hpp
+++ b/include/osmium/storage/byid/sparse_table.hpp
@@ -57,7 +57,7 @@ namespace Osmium {
                 */
                 SparseTable(const uint64_t grow_size=10000) :
                     Base<TValue>(),
-                    m_grow_size(grow_size),
+                    m_grow_size(grow_size > 0 ? grow_size : 1),
                     m_items(grow_size) {
                     assert(sizeof(typename google::sparsetable<TValue>::size_type) >= 8 && "google::sparsetable needs 64bit machine");
                 }
-- 
2.43.0


From 26c5f3a29d7d6c6c324053c569b7fb4ad57a807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 26/68] fix: the mmap store must unmap its memory once and keep
 its data when it can not grow

---
 include/osmium/storage/byid/mmap_anon.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 15979c0..efffa65 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -78,12 +78,16 @@ namespace Osmium {
 
                 void set(const uint64_t id, const TValue value) {
                     if (id >= m_size) {
+                        if (id >= static_cast<uint64_t>(-1) / sizeof(TValue) - size_increment) {
+                            throw std::bad_alloc();
+                        }
                         uint64_t new_size = id + size_increment;
 
-                        m_items = static_cast<TValue*>(mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE));
-                        if (m_items == MAP_FAILED) {
+                        void* items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
+                        if (items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
@@ -102,7 +106,10 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                    }
                 }
 
             private:
-- 
2.43.0


From bad20000ad5f65f2e5206b3fbbb3569632be030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 27/68] fix: the file store must unmap its memory once and keep
 its data when it can not grow

---
 include/osmium/storage/byid/mmap_file.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index fcd60a1..b1df519 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -107,6 +107,9 @@ namespace Osmium {
 
                 void set(const uint64_t id, const TValue value) {
                     if (id >= m_size) {
+                        if (id >= static_cast<uint64_t>(-1) / sizeof(TValue) - size_increment) {
+                            throw std::bad_alloc();
+                        }
                         uint64_t new_size = id + size_increment;
 
                         // if the file backing this mmap is smaller than needed, increase its size
@@ -116,13 +119,12 @@ namespace Osmium {
                             }
                         }
 
-                        if (munmap(m_items, sizeof(TValue) * m_size) < 0) {
-                            throw std::bad_alloc();
-                        }
-                        m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                        if (m_items == MAP_FAILED) {
+                        void* items = mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0);
+                        if (items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
@@ -141,7 +143,10 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                    }
                 }
 
             private:
-- 
2.43.0


From ba674609dbc05460d5c6c18caef8acd6671829bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 28/68] fix: opening a file store again must map the whole file

---
 include/osmium/storage/byid/mmap_file.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index b1df519..96a4a44 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -95,6 +95,9 @@ namespace Osmium {
                         }
                     }
 
+                    // a file that was kept can hold more than that
+                    m_size = get_file_size() / sizeof(TValue);
+
                     m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * m_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
                     if (m_items == MAP_FAILED) {
                         throw std::bad_alloc();
-- 
2.43.0


From 5fa1399d1a73882b3b3fe302b06eb3c62d9c90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 29/68] fix: close the descriptor of a file store

---
 include/osmium/storage/byid/mmap_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index 96a4a44..f01bdfe 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -71,7 +71,8 @@ namespace Osmium {
                         if (!file) {
                             throw std::bad_alloc();
                         }
-                        m_fd = fileno(file);
+                        m_fd = dup(fileno(file));
+                        fclose(file);
                     } else {
                         m_fd = open(filename.c_str(), O_RDWR | O_CREAT, 0600);
                     }
@@ -106,6 +107,7 @@ namespace Osmium {
 
                 ~MmapFile() {
                     clear();
+                    close(m_fd);
                 }
 
                 void set(const uint64_t id, const TValue value) {
-- 
2.43.0


From ccc1658523fffbaab825162fee883463f6df3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 30/68] fix: clearing the sparse table store must free the
 table itself, too

---
 include/osmium/storage/byid/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/sparse_table.hpp b/include/osmium/storage/byid/sparse_table.hpp
index 6ca2974..12eea6a 100644
--- a/include/osmium/storage/byid/sparse_table.hpp
+++ b/include/osmium/storage/byid/sparse_table.hpp
@@ -87,7 +87,7 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    m_items.clear();
+                    google::sparsetable<TValue>().swap(m_items);
                 }
 
             private:
-- 
2.43.0


From dfc2c2b49006fb8906f61f42704754afec8d7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 31/68] fix: objects with ids of the same magnitude but
 different sign are not equivalent

---
 include/osmium/osm/node.hpp     | 2 ++
 include/osmium/osm/relation.hpp | 2 ++
 include/osmium/osm/way.hpp      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/osmium/osm/node.hpp b/include/osmium/osm/node.hpp
index f4dea1f..695d161 100644
--- a/include/osmium/osm/node.hpp
+++ b/include/osmium/osm/node.hpp
@@ -87,6 +87,8 @@ namespace Osmium {
         inline bool operator<(const Node& lhs, const Node& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/relation.hpp b/include/osmium/osm/relation.hpp
index e20dadf..74383e6 100644
--- a/include/osmium/osm/relation.hpp
+++ b/include/osmium/osm/relation.hpp
@@ -78,6 +78,8 @@ namespace Osmium {
         inline bool operator<(const Relation& lhs, const Relation& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/way.hpp b/include/osmium/osm/way.hpp
index 89562a9..fccea1d 100644
--- a/include/osmium/osm/way.hpp
+++ b/include/osmium/osm/way.hpp
@@ -113,6 +113,8 @@ namespace Osmium {
         inline bool operator<(const Way& lhs, const Way& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From 0bf7a7ec309100221e0a1adeab04b2c3e2e68c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 32/68] fix: stored objects of a type the stream does not have
 must be applied, too

---
 include/osmium/storage/objectstore.hpp | 41 ++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 628d23b..3b05b46 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -190,6 +190,24 @@ namespace Osmium {
                     m_handler.init(m_meta);
                 }
 
+                void before_ways() {
+                    finish_nodes();
+                    m_handler.before_ways();
+                }
+
+                void before_relations() {
+                    finish_nodes();
+                    finish_ways();
+                    m_handler.before_relations();
+                }
+
+                void final() {
+                    finish_nodes();
+                    finish_ways();
+                    finish_relations();
+                    m_handler.final();
+                }
+
                 void node(const shared_ptr<Osmium::OSM::Node>& node) {
                     while (m_nodes_iter != m_nodes_end && **m_nodes_iter < *node) {
                         m_handler.node(*m_nodes_iter++);
@@ -237,6 +255,29 @@ namespace Osmium {
 
             private:
 
+                // There might be objects in the store of a type that is not
+                // in the stream at all.
+                void finish_nodes() {
+                    if (m_nodes_iter != m_nodes_end) {
+                        m_handler.before_nodes();
+                        after_nodes();
+                    }
+                }
+
+                void finish_ways() {
+                    if (m_ways_iter != m_ways_end) {
+                        m_handler.before_ways();
+                        after_ways();
+                    }
+                }
+
+                void finish_relations() {
+                    if (m_relations_iter != m_relations_end) {
+                        m_handler.before_relations();
+                        after_relations();
+                    }
+                }
+
                 ObjectStore& m_object_store;
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
-- 
2.43.0


From 42fbe228873ab4e111d04187e2b7b94c7da466ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 33/68] fix: tell the assembler that all members are available
 if there are no objects of a wanted type

---
 include/osmium/relations/assembler.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index a99ec56..2c1794b 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -475,7 +475,12 @@ namespace Osmium {
                     m_assembler.m_next_handler.after_relations();
                 }
 
-                void final() const {
+                void final() {
+                    if (m_want_types > 0) {
+                        // there were no objects at all of some of the types we want
+                        m_want_types = 0;
+                        m_assembler.all_members_available();
+                    }
                     m_assembler.m_next_handler.final();
                 }
 
-- 
2.43.0


From 70f59daa78dfc34733b59fdc5276cc174295ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 34/68] fix: undefined positions must not extend bounds

---
 include/osmium/osm/bounds.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/osm/bounds.hpp b/include/osmium/osm/bounds.hpp
index da69a42..1ec1b76 100644
--- a/include/osmium/osm/bounds.hpp
+++ b/include/osmium/osm/bounds.hpp
@@ -38,6 +38,9 @@ namespace Osmium {
             }
 
             Bounds& extend(const Position& position) {
+                if (!position.defined()) {
+                    return *this;
+                }
                 if (m_bottom_left.defined()) {
                     if (position.x() < m_bottom_left.x()) m_bottom_left.x(position.x());
                     if (position.x() > m_top_right.x()  ) m_top_right.x(position.x());
-- 
2.43.0


From 47b877d70fed4c915694898e428ad7d97d75f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 35/68] fix: empty way node list is not closed

---
 include/osmium/osm/way_node_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osm/way_node_list.hpp b/include/osmium/osm/way_node_list.hpp
index 3d79e74..b88566b 100644
--- a/include/osmium/osm/way_node_list.hpp
+++ b/include/osmium/osm/way_node_list.hpp
@@ -125,7 +125,7 @@ namespace Osmium {
             }
 
             bool is_closed() const {
-                return m_list.front().ref() == m_list.back().ref();
+                return !m_list.empty() && m_list.front().ref() == m_list.back().ref();
             }
 
             bool has_position() const {
-- 
2.43.0


From f966d0e4c9c04ba9cc4e4cb5f4acfc64144f5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 36/68] fix: text and binary output of a reversed polygon must
 be reversed, too

---
 include/osmium/geometry/polygon.hpp | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/osmium/geometry/polygon.hpp b/include/osmium/geometry/polygon.hpp
index 5128c0d..7648699 100644
--- a/include/osmium/geometry/polygon.hpp
+++ b/include/osmium/geometry/polygon.hpp
@@ -67,7 +67,11 @@ namespace Osmium {
                 }
                 LonLatListWriter<Osmium::OSM::WayNode> writer(out);
                 out << "POLYGON((" << std::setprecision(10);
-                for_each(nodes().begin(), nodes().end(), writer);
+                if (reverse()) {
+                    for_each(nodes().rbegin(), nodes().rend(), writer);
+                } else {
+                    for_each(nodes().begin(), nodes().end(), writer);
+                }
                 return out << "))";
             }
 
@@ -75,9 +79,16 @@ namespace Osmium {
                 write_binary_wkb_header(out, with_srid, wkbPolygon);
                 write_binary<uint32_t>(out, 1); // ring count
                 write_binary<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_binary<double>(out, it->lon());
-                    write_binary<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
@@ -86,9 +97,16 @@ namespace Osmium {
                 write_hex_wkb_header(out, with_srid, wkbPolygon);
                 write_hex<uint32_t>(out, 1); // ring count
                 write_hex<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_hex<double>(out, it->lon());
-                    write_hex<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
-- 
2.43.0


From a46a990eb50d53f3f5f8e3223f8386156b077ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 37/68] fix: after the reading was stopped no stored objects
 must be applied

---
 include/osmium/storage/objectstore.hpp | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 3b05b46..15e2368 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -178,6 +178,7 @@ namespace Osmium {
                     m_object_store(object_store),
                     m_handler(handler),
                     m_meta(meta),
+                    m_open(false),
                     m_nodes_iter(object_store.m_nodes.begin()),
                     m_nodes_end(object_store.m_nodes.end()),
                     m_ways_iter(object_store.m_ways.begin()),
@@ -187,24 +188,35 @@ namespace Osmium {
                 }
 
                 void init(const Osmium::OSM::Meta&) {
+                    m_open = true;
                     m_handler.init(m_meta);
+                    m_open = false;
+                }
+
+                void before_nodes() {
+                    m_open = true;
+                    m_handler.before_nodes();
                 }
 
                 void before_ways() {
                     finish_nodes();
+                    m_open = true;
                     m_handler.before_ways();
                 }
 
                 void before_relations() {
                     finish_nodes();
                     finish_ways();
+                    m_open = true;
                     m_handler.before_relations();
                 }
 
                 void final() {
-                    finish_nodes();
-                    finish_ways();
-                    finish_relations();
+                    if (!m_open) {
+                        finish_nodes();
+                        finish_ways();
+                        finish_relations();
+                    }
                     m_handler.final();
                 }
 
@@ -221,6 +233,7 @@ namespace Osmium {
                     }
                     m_handler.after_nodes();
                     m_object_store.clear_nodes();
+                    m_open = false;
                 }
 
                 void way(const shared_ptr<Osmium::OSM::Way>& way) {
@@ -236,6 +249,7 @@ namespace Osmium {
                     }
                     m_handler.after_ways();
                     m_object_store.clear_ways();
+                    m_open = false;
                 }
 
                 void relation(const shared_ptr<Osmium::OSM::Relation>& relation) {
@@ -251,6 +265,7 @@ namespace Osmium {
                     }
                     m_handler.after_relations();
                     m_object_store.clear_relations();
+                    m_open = false;
                 }
 
             private:
@@ -259,21 +274,21 @@ namespace Osmium {
                 // in the stream at all.
                 void finish_nodes() {
                     if (m_nodes_iter != m_nodes_end) {
-                        m_handler.before_nodes();
+                        before_nodes();
                         after_nodes();
                     }
                 }
 
                 void finish_ways() {
                     if (m_ways_iter != m_ways_end) {
-                        m_handler.before_ways();
+                        before_ways();
                         after_ways();
                     }
                 }
 
                 void finish_relations() {
                     if (m_relations_iter != m_relations_end) {
-                        m_handler.before_relations();
+                        before_relations();
                         after_relations();
                     }
                 }
@@ -282,6 +297,11 @@ namespace Osmium {
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
 
+                // Set from the start of init() and before_*() until the end of init()
+                // and after_*(). If it is still set in final(), the reading was stopped
+                // and nothing else may be handed over.
+                bool m_open;
+
                 ObjectStore::nodeset::iterator     m_nodes_iter;
                 ObjectStore::nodeset::iterator     m_nodes_end;
                 ObjectStore::wayset::iterator      m_ways_iter;
-- 
2.43.0


From ccc1da3e06b609c308a4a10414f22d551de6fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 38/68] fix: a stop while the rest of the store is applied must
 end in one final call

---
 include/osmium/storage/objectstore.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 15e2368..a48a28a 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -213,9 +213,13 @@ namespace Osmium {
 
                 void final() {
                     if (!m_open) {
-                        finish_nodes();
-                        finish_ways();
-                        finish_relations();
+                        try {
+                            finish_nodes();
+                            finish_ways();
+                            finish_relations();
+                        } catch (Osmium::Handler::StopReading&) {
+                            // if a handler says to stop reading, do it
+                        }
                     }
                     m_handler.final();
                 }
-- 
2.43.0


From e4143662b357b0da89d0c42774d25189ba93755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 39/68] fix: several versions of a member object must not be
 counted several times

---
 include/osmium/relations/assembler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index 2c1794b..7ed89ec 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -381,7 +381,15 @@ namespace Osmium {
                         assert(member_info.m_member_id == object->id());
                         assert(member_info.m_relation_pos < m_assembler.m_relations.size());
                         TRelationInfo& relation_info = m_assembler.m_relations[member_info.m_relation_pos];
+                        if (!relation_info.relation()) {
+                            // relation was completed with an earlier version of this object
+                            continue;
+                        }
                         assert(member_info.m_member_pos < relation_info.relation()->members().size());
+                        if (relation_info.members()[member_info.m_member_pos]) {
+                            // an earlier version of this object was already added
+                            continue;
+                        }
                         if (relation_info.add_member(object, member_info.m_member_pos)) {
                             m_assembler.complete_relation(relation_info);
                             m_assembler.m_relations[member_info.m_relation_pos] = TRelationInfo();
-- 
2.43.0


From ed25c49c3879df50baaf31c5fe7a0ee04e7e64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 40/68] fix: an object held back when reading was stopped must
 not show up in the next read

---
 include/osmium/handler/endtime.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/handler/endtime.hpp b/include/osmium/handler/endtime.hpp
index 3129275..c6c8b79 100644
--- a/include/osmium/handler/endtime.hpp
+++ b/include/osmium/handler/endtime.hpp
@@ -47,6 +47,9 @@ namespace Osmium {
             }
 
             void init(Osmium::OSM::Meta& meta) {
+                m_last_node.reset();
+                m_last_way.reset();
+                m_last_relation.reset();
                 m_handler.init(meta);
             }
 
-- 
2.43.0


From 63bbf2ba3bf5aa0f108ff650166a4cd0f593364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 41/68] fix: text after a timestamp makes it invalid

---
 include/osmium/utils/timestamp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/utils/timestamp.hpp b/include/osmium/utils/timestamp.hpp
index 49be3e9..4d95d20 100644
--- a/include/osmium/utils/timestamp.hpp
+++ b/include/osmium/utils/timestamp.hpp
@@ -73,7 +73,8 @@ namespace Osmium {
         inline time_t parse_iso(const char* timestamp) {
 #ifndef WIN32
             struct tm tm = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
-            if (strptime(timestamp, timestamp_format(), &tm) == NULL) {
+            const char* end = strptime(timestamp, timestamp_format(), &tm);
+            if (end == NULL || *end != '\0') {
                 throw std::invalid_argument("can't parse timestamp");
             }
             return timegm(&tm);
-- 
2.43.0


From 75b92efb87da8d17126e3c2c4d272e9cad902e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 42/68] fix: a member refused because of its role must not be
 added half filled

---
 include/osmium/osm/relation_member_list.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/osmium/osm/relation_member_list.hpp b/include/osmium/osm/relation_member_list.hpp
index df8c2be..74230d1 100644
--- a/include/osmium/osm/relation_member_list.hpp
+++ b/include/osmium/osm/relation_member_list.hpp
@@ -74,15 +74,13 @@ namespace Osmium {
             }
 
             void add_member(const char type, osm_object_id_t ref, const char* role) {
-                /* first we resize the vector... */
-                m_list.resize(m_list.size()+1);
-                /* ...and get an address for the new element... */
-                RelationMember* m = &m_list[m_list.size()-1];
-                /* ...so that we can directly write into the memory and avoid
-                a second copy */
-                m->type(type);
-                m->ref(ref);
-                m->role(role);
+                /* the member is completed before it is added, because setting
+                the role throws if it is too long */
+                RelationMember m;
+                m.type(type);
+                m.ref(ref);
+                m.role(role);
+                m_list.push_back(m);
             }
 
         private:
-- 
2.43.0


From c5a192e7c0a00327d31ac15b87f2b64e6f3b69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 43/68] fix: Progress handler: rates of files without ways or
 relations, and without time passing

The averages at the end took the start time of the next type of objects as the
end time, even if there were no such objects, and printed a negative number. A
rate over no time at all was an infinity converted to int.
---
 include/osmium/handler/progress.hpp | 34 +++++++++++++++++++----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/osmium/handler/progress.hpp b/include/osmium/handler/progress.hpp
index dfb5b59..41e12e4 100644
--- a/include/osmium/handler/progress.hpp
+++ b/include/osmium/handler/progress.hpp
@@ -58,6 +58,18 @@ namespace Osmium {
             timeval m_first_way;
             timeval m_first_relation;
 
+            /**
+             * Number of objects per second. This is 0 if no time has passed
+             * between from and to.
+             */
+            static int rate(uint64_t count, const timeval& from, const timeval& to) {
+                const float diff = (to.tv_sec - from.tv_sec) * 1000000 + (to.tv_usec - from.tv_usec);
+                if (diff <= 0) {
+                    return 0;
+                }
+                return static_cast<float>(count) / diff * 1000000;
+            }
+
             void update_display(bool show_per_second=true) const {
                 std::cout << "[" << m_count_nodes << "]";
                 if (m_count_ways > 0 || m_count_relations > 0) {
@@ -72,16 +84,13 @@ namespace Osmium {
                     gettimeofday(&now, 0);
 
                     if (m_count_relations > 0) {
-                        float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                        int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
+                        int relations_per_sec = rate(m_count_relations, m_first_relation, now);
                         std::cout << " (" << relations_per_sec << " Relations per second)   ";
                     } else if (m_count_ways > 0) {
-                        float way_diff = (now.tv_sec - m_first_way.tv_sec) * 1000000 + (now.tv_usec - m_first_way.tv_usec);
-                        int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
+                        int ways_per_sec = rate(m_count_ways, m_first_way, now);
                         std::cout << " (" << ways_per_sec << " Ways per second)   ";
                     } else if (m_count_nodes > 0) {
-                        float node_diff = (now.tv_sec - m_first_node.tv_sec) * 1000000 + (now.tv_usec - m_first_node.tv_usec);
-                        int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
+                        int nodes_per_sec = rate(m_count_nodes, m_first_node, now);
                         std::cout << " (" << nodes_per_sec << " Nodes per second)   ";
                     }
                 } else {
@@ -165,21 +174,22 @@ namespace Osmium {
                 timeval now;
                 gettimeofday(&now, 0);
 
+                // nodes and ways end where the next type of objects starts
+                const timeval& end_ways = m_count_relations > 0 ? m_first_relation : now;
+                const timeval& end_nodes = m_count_ways > 0 ? m_first_way : end_ways;
+
                 if (m_count_nodes > 0) {
-                    float node_diff = (m_first_way.tv_sec - m_first_node.tv_sec) * 1000000 + (m_first_way.tv_usec - m_first_node.tv_usec);
-                    int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
+                    int nodes_per_sec = rate(m_count_nodes, m_first_node, end_nodes);
                     std::cout << nodes_per_sec << " Nodes ";
                 }
 
                 if (m_count_ways > 0) {
-                    float way_diff = (m_first_relation.tv_sec - m_first_way.tv_sec) * 1000000 + (m_first_relation.tv_usec - m_first_way.tv_usec);
-                    int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
+                    int ways_per_sec = rate(m_count_ways, m_first_way, end_ways);
                     std::cout << ways_per_sec << " Ways ";
                 }
 
                 if (m_count_relations > 0) {
-                    float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                    int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
+                    int relations_per_sec = rate(m_count_relations, m_first_relation, now);
                     std::cout << relations_per_sec << " Relations ";
                 }
 
-- 
2.43.0


From 3bccd86d7d9898e9d9f9f345bb307f9053cf0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 44/68] fix: Haversine distance of almost opposite positions is
 not NaN

Through rounding the argument of asin() could be slightly larger than 1.
---
 include/osmium/geometry/haversine.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/geometry/haversine.hpp b/include/osmium/geometry/haversine.hpp
index 1b90149..3c18481 100644
--- a/include/osmium/geometry/haversine.hpp
+++ b/include/osmium/geometry/haversine.hpp
@@ -22,6 +22,9 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#include <algorithm>
+#include <cmath>
+
 #include <osmium/osm/position.hpp>
 #include <osmium/osm/way_node_list.hpp>
 
@@ -53,7 +56,7 @@ namespace Osmium {
                 double lath = sin(lat_arc * 0.5);
                 lath *= lath;
                 const double tmp = cos(y1 * DEG_TO_RAD) * cos(y2 * DEG_TO_RAD);
-                return 2.0 * EARTH_RADIUS_IN_METERS * asin(sqrt(lath + tmp*lonh));
+                return 2.0 * EARTH_RADIUS_IN_METERS * asin(std::min(1.0, sqrt(lath + tmp*lonh)));
             }
 
             inline double distance(const Osmium::OSM::Position& from, const Osmium::OSM::Position& to) {
-- 
2.43.0


From 7df38620fcf38d03f716ee0657a53815812cfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 45/68] fix: shapefile: keep a base name that has a dot

---
 include/osmium/export/shapefile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 2f5e6a4..ea5b7b4 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -343,11 +343,12 @@ namespace Osmium {
                     filename << "_" << m_sequence_number;
                 }
 
-                m_shp_handle = SHPCreate(filename.str().c_str(), m_type);
+                // shapelib replaces everything after the last dot, so it must be told the full name
+                m_shp_handle = SHPCreate((filename.str() + ".shp").c_str(), m_type);
                 if (m_shp_handle == 0) {
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".shp/shx");
                 }
-                m_dbf_handle = DBFCreate(filename.str().c_str());
+                m_dbf_handle = DBFCreate((filename.str() + ".dbf").c_str());
                 if (m_dbf_handle == 0) {
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".dbf");
                 }
-- 
2.43.0


From 0435c5ee23fbf450a4c6c12804a72c4a0fffccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 46/68] fix: shapefile: close the files when one of them cannot
 be created

---
 include/osmium/export/shapefile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index ea5b7b4..87032bd 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -350,12 +350,14 @@ namespace Osmium {
                 }
                 m_dbf_handle = DBFCreate((filename.str() + ".dbf").c_str());
                 if (m_dbf_handle == 0) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".dbf");
                 }
 
                 std::ofstream file;
                 file.open((filename.str() + ".prj").c_str());
                 if (file.fail()) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".prj");
                 }
                 file << "GEOGCS[\"GCS_WGS_1984\",DATUM[\"D_WGS_1984\",SPHEROID[\"WGS_1984\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"Degree\",0.017453292519943295]]" << std::endl;
@@ -363,6 +365,7 @@ namespace Osmium {
 
                 file.open((filename.str() + ".cpg").c_str());
                 if (file.fail()) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".cpg");
                 }
                 file << "UTF-8" << std::endl;
-- 
2.43.0


From c5e5ac7377d8c6b2c3e2c7fa7a5e697d8035f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 47/68] fix: shapefile: do not read before a string that is cut
 to one or two bytes

---
 include/osmium/export/shapefile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 87032bd..8b7beb0 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -269,9 +269,9 @@ namespace Osmium {
                 if (dest[i] & 128) {
                     if (dest[i] & 64) {
                         dest[i] = '\0';
-                    } else if ((dest[i-1] & 224) == 224) {
+                    } else if (i >= 1 && (dest[i-1] & 224) == 224) {
                         dest[i-1] = '\0';
-                    } else if ((dest[i-2] & 240) == 240) {
+                    } else if (i >= 2 && (dest[i-2] & 240) == 240) {
                         dest[i-2] = '\0';
                     }
                 }
-- 
2.43.0


From 589047f3ce507797744eed4f415caf10c2ac0dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 48/68] fix: an area without geometry can be copied

---
 include/osmium/osm/area.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a5979f6..58a0cd6 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -65,6 +65,11 @@ namespace Osmium {
                 return m_geos_geometry;
             }
 
+            /// The geometry is NULL until somebody builds it.
+            static geos::geom::MultiPolygon* clone_geometry(const geos::geom::MultiPolygon* geometry) {
+                return geometry ? dynamic_cast<geos::geom::MultiPolygon*>(geometry->clone()) : NULL;
+            }
+
         public:
 
             /// Construct an Area object from a Relation object.
@@ -86,7 +91,7 @@ namespace Osmium {
             Area(const Area& area) :
                 Object(area),
                 m_node_list(area.m_node_list),
-                m_geos_geometry(dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone())) {
+                m_geos_geometry(clone_geometry(area.m_geos_geometry)) {
             }
 
             Area& operator=(const Area& area) {
@@ -100,7 +105,9 @@ namespace Osmium {
                 visible(area.visible());
                 tags(area.tags());
                 m_node_list = area.m_node_list;
-                m_geos_geometry = dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone());
+                geos::geom::MultiPolygon* geos_geometry = clone_geometry(area.m_geos_geometry);
+                delete m_geos_geometry;
+                m_geos_geometry = geos_geometry;
                 return *this;
             }
 
-- 
2.43.0


From ec1ffcc8b9576296b1d76884bc35bd70a52a551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 49/68] fix: multipolygons: a missing tag is not the same as
 one with empty value

---
 include/osmium/multipolygon/builder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 12ce7c1..36da663 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -226,8 +226,9 @@ namespace Osmium {
 
                 BOOST_FOREACH(const Osmium::OSM::Tag& tag, b->tags()) {
                     if (!ignore_tag(tag.key())) {
-                        if (tag_map[tag.key()] != tag.value()) return false;
-                        tag_map.erase(tag.key());
+                        std::map<std::string, std::string>::iterator it = tag_map.find(tag.key());
+                        if (it == tag_map.end() || it->second != tag.value()) return false;
+                        tag_map.erase(it);
                     }
                 }
 
-- 
2.43.0


From 0e7f6ff1b98378b345ffb981f053bb7776298fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 50/68] fix: multipolygons: a ring nested four deep is a hole
 of one ring only

---
 include/osmium/multipolygon/builder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 36da663..ba51dd5 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -718,8 +718,10 @@ namespace Osmium {
                 // contained by something else; if a contains b and b contains c, then
                 // our array says that a contains b, b contains c, and a contains c.
                 // thin out the array so that only direct relationships remain (and
-                // the "a contains c" is dropped).
+                // the "a contains c" is dropped). the decision is made on the complete
+                // array, some of the relationships it needs might be dropped already.
 
+                const std::vector<bs_t> contains_all(contains);
                 for (unsigned int i=0; i < m_ringlist.size(); ++i) {
                     for (unsigned j=0; j < m_ringlist.size(); ++j) {
                         if (contains[i][j]) {
@@ -727,7 +729,7 @@ namespace Osmium {
                             for (unsigned int k=0; k < m_ringlist.size(); ++k) {
                                 if (k==i) continue;
                                 if (k==j) continue;
-                                if (contains[i][k] && contains[k][j]) {
+                                if (contains_all[i][k] && contains_all[k][j]) {
                                     // intermediary relationship exists; break this
                                     // one up.
                                     contains[i][j] = false;
-- 
2.43.0


From dc756e55a7239e9315697fe9649870589a2e2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 51/68] fix: multipolygons: repair does not spoil rings that
 touch

---
 include/osmium/multipolygon/builder.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index ba51dd5..8f3fe0b 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -448,7 +448,7 @@ namespace Osmium {
             /**
              * This method is called when a complete ring was created from one or more ways.
              */
-            shared_ptr<RingInfo> ring_is_complete(std::vector< shared_ptr<WayInfo> >& ways, int ringcount, int num_ways_in_ring) const {
+            shared_ptr<RingInfo> ring_is_complete(std::vector< shared_ptr<WayInfo> >& ways, int ringcount, int num_ways_in_ring, bool attempt_repair) const {
                 std::vector< shared_ptr<WayInfo> > sorted_ways(num_ways_in_ring);
                 for (unsigned int i=0; i < ways.size(); ++i) {
                     if (ways[i]->used == ringcount) {
@@ -462,7 +462,7 @@ namespace Osmium {
                     if (!linear_ring->isSimple() || !linear_ring->isValid()) {
                         delete linear_ring;
                         linear_ring = NULL;
-                        if (m_attempt_repair) {
+                        if (attempt_repair) {
                             scoped_ptr<geos::geom::CoordinateSequence> cs(create_ring_coordinate_sequence(sorted_ways));
                             linear_ring = create_non_intersecting_linear_ring(cs.get());
                             if (linear_ring) {
@@ -482,11 +482,11 @@ namespace Osmium {
             /**
              * Try extending a proto-ring recursively until it is complete.
              */
-            shared_ptr<RingInfo> complete_ring(std::vector< shared_ptr<WayInfo> >& ways, osm_object_id_t first, osm_object_id_t last, int ringcount, int sequence) const {
+            shared_ptr<RingInfo> complete_ring(std::vector< shared_ptr<WayInfo> >& ways, osm_object_id_t first, osm_object_id_t last, int ringcount, int sequence, bool attempt_repair) const {
 
                 // is the ring closed already?
                 if (first == last) {
-                    return ring_is_complete(ways, ringcount, sequence);
+                    return ring_is_complete(ways, ringcount, sequence, attempt_repair);
                 }
 
                 // try extending our current line at the rear end
@@ -502,7 +502,7 @@ namespace Osmium {
                         ways[i]->used = ringcount;
                         ways[i]->sequence = sequence;
                         ways[i]->invert = false;
-                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->lastnode(), ringcount, sequence+1);
+                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->lastnode(), ringcount, sequence+1, attempt_repair);
                         if (result) {
                             result->ways.push_back(ways[i]);
                             return result;
@@ -513,7 +513,7 @@ namespace Osmium {
                         ways[i]->used = ringcount;
                         ways[i]->sequence = sequence;
                         ways[i]->invert = true;
-                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->firstnode(), ringcount, sequence+1);
+                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->firstnode(), ringcount, sequence+1, attempt_repair);
                         if (result) {
                             result->ways.push_back(ways[i]);
                             return result;
@@ -537,7 +537,12 @@ namespace Osmium {
                     ways[i]->used = m_ringlist.size();
                     ways[i]->sequence = 0;
                     ways[i]->invert = false;
-                    const shared_ptr<RingInfo>& rl = complete_ring(ways, ways[i]->firstnode(), ways[i]->lastnode(), m_ringlist.size(), 1);
+                    // a ring that needs repair is only taken if there is no valid one,
+                    // it might only be invalid because it runs through two touching rings
+                    shared_ptr<RingInfo> rl = complete_ring(ways, ways[i]->firstnode(), ways[i]->lastnode(), m_ringlist.size(), 1, false);
+                    if (!rl && m_attempt_repair) {
+                        rl = complete_ring(ways, ways[i]->firstnode(), ways[i]->lastnode(), m_ringlist.size(), 1, true);
+                    }
                     if (rl) {
                         rl->ways.push_back(ways[i]);
                         m_ringlist.push_back(rl);
-- 
2.43.0


From 8a3a495eada016eb8e374fe2ca9f8822001ec196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 52/68] fix: show versions above 2^31 to JavaScript as they are

---
 include/osmium/javascript/wrapper/osm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index bd72f24..23e65ec 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -180,7 +180,7 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> version(Osmium::OSM::Object* object) {
-                    return v8::Integer::New(object->version());
+                    return v8::Number::New(object->version());
                 }
 
                 static v8::Handle<v8::Value> timestamp_as_string(Osmium::OSM::Object* object) {
-- 
2.43.0


From da3f7fac4713f2a0b08b523878aebdb9f6384214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 53/68] fix: toWKB() returned the bytes up to the first zero
 only

---
 include/osmium/javascript/wrapper/geometry.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/geometry.hpp b/include/osmium/javascript/wrapper/geometry.hpp
index 505e4c3..1d4bf6b 100644
--- a/include/osmium/javascript/wrapper/geometry.hpp
+++ b/include/osmium/javascript/wrapper/geometry.hpp
@@ -23,6 +23,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 */
 
 #include <sstream>
+#include <string>
+#include <vector>
 #include <v8.h>
 
 #include <geos/geom/Geometry.h>
@@ -63,7 +65,11 @@ namespace Osmium {
                         with_srid = args[0]->ToBoolean()->Value();
                     }
                     oss << geometry->as_WKB(with_srid);
-                    return v8::String::New(oss.str().c_str());
+                    // one character per byte, some of which are NUL
+                    const std::string wkb(oss.str());
+                    const std::vector<uint16_t> chars(reinterpret_cast<const unsigned char*>(wkb.data()),
+                                                      reinterpret_cast<const unsigned char*>(wkb.data()) + wkb.size());
+                    return v8::String::New(&chars[0], chars.size());
                 }
 
                 static v8::Handle<v8::Value> to_hexwkb(const v8::Arguments& args, Osmium::Geometry::Geometry* geometry) {
-- 
2.43.0


From c04f9c3cd032db713ac5acf32073e6882db546de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 54/68] fix: way nodes and members beyond the last one are
 undefined in JavaScript

---
 include/osmium/javascript/wrapper/osm.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 23e65ec..a32f867 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -84,6 +84,9 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> get_node_id(uint32_t index, Osmium::OSM::WayNodeList* wnl) {
+                    if (index >= wnl->size()) {
+                        return v8::Undefined();
+                    }
                     return v8::Number::New((*wnl)[index].ref());
                 }
 
@@ -141,6 +144,9 @@ namespace Osmium {
             struct OSMRelationMemberList : public Osmium::Javascript::Template {
 
                 static v8::Handle<v8::Value> get_member(uint32_t index, Osmium::OSM::RelationMemberList* rml) {
+                    if (index >= rml->size()) {
+                        return v8::Undefined();
+                    }
                     return OSMRelationMember::get<OSMRelationMember>().create_instance((void*)&((*rml)[index]));
                 }
 
-- 
2.43.0


From 5185af96489317c2dcd4b9224fbf2fd6853d49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 55/68] fix: tags with a number as key were missing in
 JavaScript

---
 include/osmium/javascript/wrapper/osm.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index a32f867..0b12aa5 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -21,6 +21,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 <http://www.gnu.org/licenses/>.
 
 */
+#include <sstream>
 #include <v8.h>
 
 #include <osmium/javascript/unicode.hpp>
@@ -51,6 +52,17 @@ namespace Osmium {
                     return v8::Undefined();
                 }
 
+                // Javascript takes keys that look like numbers for an index
+                static v8::Handle<v8::Value> get_value_by_index(uint32_t index, Osmium::OSM::TagList* tag_list) {
+                    std::ostringstream key;
+                    key << index;
+                    const char* value = tag_list->get_value_by_key(key.str().c_str());
+                    if (value) {
+                        return Osmium::utf8_to_v8_String<Osmium::OSM::Tag::max_utf16_length_value>(value);
+                    }
+                    return v8::Undefined();
+                }
+
                 static v8::Handle<v8::Array> enumerate_tag_keys(Osmium::OSM::TagList* tag_list) {
                     v8::HandleScope scope;
                     v8::Local<v8::Array> array = v8::Array::New(tag_list->size());
@@ -73,6 +85,7 @@ namespace Osmium {
                         0,
                         property_enumerator<Osmium::OSM::TagList, enumerate_tag_keys>
                     );
+                    js_template->SetIndexedPropertyHandler(indexed_property_getter<Osmium::OSM::TagList, get_value_by_index>);
                 }
 
             };
-- 
2.43.0


From 1635dc77061d0f4d22e9c153dbbc4fcf54219970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 56/68] fix: Javascript strings were printed up to the first
 zero character only

---
 include/osmium/javascript/unicode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/javascript/unicode.hpp b/include/osmium/javascript/unicode.hpp
index 1d387d7..1df539e 100644
--- a/include/osmium/javascript/unicode.hpp
+++ b/include/osmium/javascript/unicode.hpp
@@ -139,7 +139,7 @@ namespace Osmium {
             free(src);
             throw UTF16_to_UTF8_Conversion_Error(error_code);
         }
-        os << buffer;
+        os.write(buffer, buffer_length);
         free(buffer);
         free(src);
     }
-- 
2.43.0


From 4e49d404cab73d304396e5e9f0a832bfdaffb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 57/68] fix: asking for a tag key that is too long or no valid
 text ended the program

---
 include/osmium/javascript/wrapper/osm.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 0b12aa5..b9001c1 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -44,7 +44,12 @@ namespace Osmium {
             struct OSMTagList : public Osmium::Javascript::Template {
 
                 static v8::Handle<v8::Value> get_value_by_key(v8::Local<v8::String> property, Osmium::OSM::TagList* tag_list) {
-                    const char* key = Osmium::v8_String_to_utf8<Osmium::OSM::Tag::max_utf16_length_key>(property);
+                    const char* key;
+                    try {
+                        key = Osmium::v8_String_to_utf8<Osmium::OSM::Tag::max_utf16_length_key>(property);
+                    } catch (const Osmium::UTF16_to_UTF8_Conversion_Error&) {
+                        return v8::Undefined(); // no tag can have this key
+                    }
                     const char* value = tag_list->get_value_by_key(key);
                     if (value) {
                         return Osmium::utf8_to_v8_String<Osmium::OSM::Tag::max_utf16_length_value>(value);
-- 
2.43.0


From f265f158b7204b381a06ef6eaafa07281da7a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 58/68] fix: long texts from JavaScript with a character cut in
 half ended the program

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index a5285b2..5daad86 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -66,7 +66,11 @@ namespace Osmium {
                     int32_t dest_length;
                     UErrorCode error_code = U_ZERO_ERROR;
                     value->ToString()->Write(source, 0, Osmium::Export::Shapefile::max_dbf_field_length+1);
-                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length()), &error_code);
+                    int length = std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length());
+                    if (length < value->ToString()->Length() && U16_IS_LEAD(source[length-1])) {
+                        --length; // do not cut a character in half
+                    }
+                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, length, &error_code);
                     if (error_code == U_BUFFER_OVERFLOW_ERROR) {
                         // thats ok, it just means we clip the text at that point
                     } else if (U_FAILURE(error_code)) {
-- 
2.43.0


From 31638bceae62502bfc47661628616e19f3e687ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 59/68] fix: areas with ids of equal magnitude and opposite
 sign were equivalent in the order

---
 include/osmium/osm/area.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index 58a0cd6..53232fe 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -144,6 +144,8 @@ namespace Osmium {
         inline bool operator<(const Area& lhs, const Area& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From 2e91a3d16defb3a14835265d5feff1ecaf1ab5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 60/68] fix: osmjs -2 without a location store used a null
 pointer

---
 osmjs/osmjs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index 08f231e..ff1cf85 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -198,7 +198,7 @@ int main(int argc, char* argv[]) {
         std::cerr << "Warning! The command line option -2 has changed its meaning.\nIt now only enables the two-pass mode, multipolygon assembly has to be enabled with -m.\n";
     }
 
-    if (multipolygon && location_store == NONE) {
+    if (two_passes && location_store == NONE) {
         std::cerr << "You need to set the location store with -l, otherwise multipolygon assembly will not work.\n";
         exit(1);
     }
-- 
2.43.0


From edc29cf9d60f14c4eddeb7b9d570cb7b4133626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 61/68] fix: Osmium.debug did not reflect the --debug/-d option
 of osmjs

---
 include/osmium/javascript/handler.hpp | 4 +++-
 osmjs/osmjs.cpp                       | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/osmium/javascript/handler.hpp b/include/osmium/javascript/handler.hpp
index 03aaffb..51aa530 100644
--- a/include/osmium/javascript/handler.hpp
+++ b/include/osmium/javascript/handler.hpp
@@ -149,8 +149,10 @@ namespace Osmium {
                 return v8::Undefined();
             }
 
-            Handler(std::vector<std::string> include_files, const char* filename) :
+            Handler(std::vector<std::string> include_files, const char* filename, int debug_level=0) :
                 Osmium::Handler::Base() {
+                // the scripts read below can ask for it
+                set_debug_level(debug_level);
 //                v8::HandleScope handle_scope;
                 v8::Handle<v8::String> init_source = v8::String::New("Osmium = { Callbacks: {}, Output: { } };");
                 v8::Handle<v8::Script> init_script = v8::Script::Compile(init_source);
diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index ff1cf85..de8c03c 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -239,8 +239,7 @@ int main(int argc, char* argv[]) {
         store_pos = new Osmium::Storage::ById::Vector<Osmium::OSM::Position>();
     }
     Osmium::Storage::ById::MmapFile<Osmium::OSM::Position> store_neg;
-    Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str());
-    handler_javascript.set_debug_level(debug ? 1 : 0);
+    Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str(), debug ? 1 : 0);
 
     if (two_passes) {
         typedef Osmium::MultiPolygon::Assembler<Osmium::Javascript::Handler> assembler_t;
-- 
2.43.0


From ffc1103c7b96bbe229f8352ac44b3caa2289c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 62/68] fix: osmjs -i without HOME in the environment ended in
 an exception

---
 osmjs/osmjs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index de8c03c..73fa084 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -69,7 +69,10 @@ std::string find_include_file(std::string filename) {
     search_path.push_back("/");
     search_path.push_back(".");
     search_path.push_back("js");
-    search_path.push_back(std::string(getenv("HOME")) + "/.osmjs");
+    const char* home = getenv("HOME");
+    if (home) {
+        search_path.push_back(std::string(home) + "/.osmjs");
+    }
     search_path.push_back("/usr/local/share/osmjs");
     search_path.push_back("/usr/share/osmjs");
 
-- 
2.43.0


From cf217e263ae4114c7e561938753432698a737057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 63/68] fix: osmjs -i took a dot in a directory name for a file
 suffix

---
 osmjs/osmjs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index 73fa084..885191d 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -77,7 +77,8 @@ std::string find_include_file(std::string filename) {
     search_path.push_back("/usr/share/osmjs");
 
     // add .js if there is no suffix
-    if (filename.find_last_of('.') == std::string::npos) {
+    const std::string::size_type slash = filename.find_last_of('/');
+    if (filename.find('.', slash == std::string::npos ? 0 : slash + 1) == std::string::npos) {
         filename.append(".js");
     }
 
-- 
2.43.0


From dc32d503ff329b9f196307a1cd3ae88cf1f72e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 64/68] fix: nodes had no lon and lat attributes in JavaScript,
 as they are documented

---
 include/osmium/javascript/wrapper/osm.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index b9001c1..01b125d 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -252,8 +252,18 @@ namespace Osmium {
                     return GeometryPoint::get<GeometryPoint>().create_persistent_instance<Osmium::Geometry::Point>(geom);
                 }
 
+                static v8::Handle<v8::Value> get_lon(Osmium::OSM::Node* node) {
+                    return v8::Number::New(node->position().lon());
+                }
+
+                static v8::Handle<v8::Value> get_lat(Osmium::OSM::Node* node) {
+                    return v8::Number::New(node->position().lat());
+                }
+
                 OSMNode() :
                     OSMObject() {
+                    js_template->SetAccessor(v8::String::NewSymbol("lon"),  accessor_getter<Osmium::OSM::Node, get_lon>);
+                    js_template->SetAccessor(v8::String::NewSymbol("lat"),  accessor_getter<Osmium::OSM::Node, get_lat>);
                     js_template->SetAccessor(v8::String::NewSymbol("geom"), accessor_getter<Osmium::OSM::Node, get_geom>);
                 }
 
-- 
2.43.0


From 47d94e3585148f764ec272117e635052883c5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 65/68] fix: looking up an id beyond the size of a mapped store
 crashed (ways with nodes that are not in the file)

---
 include/osmium/storage/byid/mmap_anon.hpp | 3 +++
 include/osmium/storage/byid/mmap_file.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index efffa65..90582ea 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -94,6 +94,9 @@ namespace Osmium {
                 }
 
                 const TValue operator[](const uint64_t id) const {
+                    if (id >= m_size) {
+                        return TValue();
+                    }
                     return m_items[id];
                 }
 
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index f01bdfe..e225631 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -136,6 +136,9 @@ namespace Osmium {
                 }
 
                 const TValue operator[](const uint64_t id) const {
+                    if (id >= m_size) {
+                        return TValue();
+                    }
                     return m_items[id];
                 }
 
-- 
2.43.0


From 8ab256e4d35fa9ed69d8fa6b6d755f44c117ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 66/68] fix: rules of osm2shape.js did not match tags with
 empty values

---
 osmjs/js/osm2shape.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osmjs/js/osm2shape.js b/osmjs/js/osm2shape.js
index c74f5db..4edcb92 100644
--- a/osmjs/js/osm2shape.js
+++ b/osmjs/js/osm2shape.js
@@ -126,25 +126,25 @@ function area(key, value) {
 function build_func(key, value) {
     if (value == null) {
         return function(obj) {
-            return !!obj.tags[key];
+            return obj.tags[key] !== undefined;
         };
     } else if (typeof(value) == 'string') {
         if (value == '*') {
             return function(obj) {
-                return !!obj.tags[key];
+                return obj.tags[key] !== undefined;
             };
         } else if (value.match(/\|/)) {
             value = value.split('|');
         } else {
             return function(obj) {
-                return obj.tags[key] && obj.tags[key] == value;
+                return obj.tags[key] == value;
             };
         }
     }
     
     if (value instanceof Array) {
         return function(obj) {
-            if (! obj.tags[key]) {
+            if (obj.tags[key] === undefined) {
                 return false;
             }
             for(var i=0; i < value.length; i++) {
-- 
2.43.0


From 3ecaa0da0b2b42c781625a05b1503a094de2aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 67/68] fix: columns of type double in shapefiles written from
 JavaScript ended the program

---
 .../osmium/javascript/wrapper/export_shapefile.hpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index 5daad86..88a0876 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -79,6 +79,15 @@ namespace Osmium {
                     shapefile->add_attribute(n, dest);
                 }
 
+                static void add_double_attribute(Osmium::Export::Shapefile* shapefile, int n, v8::Local<v8::Value> value) {
+                    const double number = value->NumberValue();
+                    if (number == number) {
+                        shapefile->add_attribute(n, number);
+                    } else {
+                        shapefile->add_attribute(n); // not a number
+                    }
+                }
+
                 static void add_logical_attribute(Osmium::Export::Shapefile* shapefile, int n, v8::Local<v8::Value> value) {
                     v8::String::Utf8Value str(value);
 
@@ -123,7 +132,7 @@ namespace Osmium {
                                         shapefile->add_attribute(n, value->Int32Value());
                                         break;
                                     case FTDouble:
-                                        throw std::runtime_error("fields of type double not implemented");
+                                        add_double_attribute(shapefile, n, value);
                                         break;
                                     case FTLogical:
                                         add_logical_attribute(shapefile, n, value);
-- 
2.43.0


From 53f31ed27746232717a4d32a9cc0b79619a70923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 68/68] fix: numbers of more than 32 bits in integer columns of
 shapefiles written from JavaScript were wrapped

---
 .../osmium/javascript/wrapper/export_shapefile.hpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index 88a0876..a495712 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -79,6 +79,15 @@ namespace Osmium {
                     shapefile->add_attribute(n, dest);
                 }
 
+                static void add_integer_attribute(Osmium::Export::Shapefile* shapefile, int n, v8::Local<v8::Value> value) {
+                    const double number = value->NumberValue();
+                    if (number >= 2147483648.0 || number <= -2147483649.0) {
+                        add_double_attribute(shapefile, n, value); // doesn't fit into 32 bit
+                    } else {
+                        shapefile->add_attribute(n, value->Int32Value());
+                    }
+                }
+
                 static void add_double_attribute(Osmium::Export::Shapefile* shapefile, int n, v8::Local<v8::Value> value) {
                     const double number = value->NumberValue();
                     if (number == number) {
@@ -129,7 +138,7 @@ namespace Osmium {
                                         add_string_attribute(shapefile, n, value);
                                         break;
                                     case FTInteger:
-                                        shapefile->add_attribute(n, value->Int32Value());
+                                        add_integer_attribute(shapefile, n, value);
                                         break;
                                     case FTDouble:
                                         add_double_attribute(shapefile, n, value);
-- 
2.43.0

