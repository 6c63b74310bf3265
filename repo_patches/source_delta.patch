From 438694f434e3b557befeb78744eacb27c4de87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 001/105] fix: do not read before the start of an empty field
 of an xRIT segment name

---
 msat/xrit/fileaccess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ad68e24..0ab89da 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -44,6 +44,7 @@ static std::string underscoreit(const std::string& base, int final_len)
 
 static std::string deunderscore(const std::string& str)
 {
+    if (str.empty()) return str;
     size_t pos = str.size() - 1;
     while (pos > 0 && str[pos] == '_')
         --pos;
-- 
2.43.0


From 9f72524c05296b05630d963efe27474590c562e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 002/105] fix: ':' signs in the directory do not make a file
 name an xRIT name

---
 msat/xrit/fileaccess.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index 0ab89da..eee122f 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -60,8 +60,9 @@ bool isValid(const std::string& filename)
     if (filename.substr(filename.size() - 3) == "-C_")
         return true;
 
-	// check that it contains at least 3 ':' signs
-	size_t pos = 0;
+	// check that it contains at least 3 ':' signs after the directory name
+	size_t pos = filename.rfind('/');
+	pos = pos == string::npos ? 0 : pos + 1;
 	for (int i = 0; i < 3; ++i, ++pos)
 		if ((pos = filename.find(':', pos)) == string::npos)
 			return false;
-- 
2.43.0


From 854109211eb1c460392f489401817f8b6cbbb0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 003/105] fix: report malformed HRIT headers with an exception

A throw without an exception being handled ends the process, and record
lengths were trusted: a damaged file could be read past its end, or loop.
---
 msat/hrit/MSG_data_gts.cpp              |  3 +-
 msat/hrit/MSG_data_key.cpp              |  3 +-
 msat/hrit/MSG_data_text.cpp             |  3 +-
 msat/hrit/MSG_header.cpp                | 49 +++++++++++++++----------
 msat/hrit/MSG_header_ancillary_text.cpp |  5 ++-
 msat/hrit/MSG_header_image_datafunc.cpp |  5 ++-
 msat/hrit/MSG_header_image_navig.cpp    | 11 ++++--
 7 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 6c276f4..39b1c92 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_gts.h>
 
 MSG_data_gts::MSG_data_gts( )
@@ -53,7 +54,7 @@ size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
   if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
     std::cerr << "Invalid GTS message(s) size." << std::endl;
-    throw;
+    throw std::runtime_error("invalid GTS message size");
   }
 
   mbuff = new unsigned char_1[msize];
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 2671d73..96e46dc 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_key.h>
 
 MSG_data_key::MSG_data_key( )
@@ -52,7 +53,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
   {
     std::cerr << "Key message number or size invalid." << std::endl;
-    throw;
+    throw std::runtime_error("invalid key message number or size");
   }
 
   keys = new MSG_encryption_key[nkeys];
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8ee630d..c9b83c0 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_text.h>
 
 MSG_data_text::MSG_data_text( )
@@ -53,7 +54,7 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
   if (tsize == 0)
   {
     std::cerr << "Invalid TEXT message size." << std::endl;
-    throw;
+    throw std::runtime_error("invalid text message size");
   }
 
   tbuff = new unsigned char_1[tsize];
diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..722c8e0 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
+#include <vector>
 
 #include <msat/hrit/MSG_header.h>
 
@@ -81,36 +83,39 @@ void MSG_header::read_from( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from HRIT file: Primary Header");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
     std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("First header type value is not primary");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("First header type value is not primary");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  // The header must be all in the file
+  std::streampos body_start = in.tellg( );
+  in.seekg(0, std::ios::end);
+  std::streamoff available = in.tellg( ) - body_start;
+  in.seekg(body_start);
+  if (in.fail( ) || total_header_length < MSG_HEADER_PRIMARY_LEN
+      || (std::streamoff)total_header_length - MSG_HEADER_PRIMARY_LEN > available)
+    throw std::runtime_error("HRIT header is longer than the file");
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
-  hbuff = new unsigned char_1[hsize];
-  if (!hbuff)
-  {
-    std::cerr << "Memory allocation error in MSG_header." << std::endl
-              << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
-  }
+  std::vector<unsigned char_1> hbody(hsize + 1);
+  hbuff = hbody.data( );
   in.read((char_1 *) hbuff, hsize);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    throw std::runtime_error("Read error from HRIT file: Header body");
   }
   unsigned char_1 *pnt = hbuff;
   size_t left = hsize;
@@ -118,6 +123,9 @@ void MSG_header::read_from( std::ifstream &in )
   size_t hqlen = 0;
   while (left)
   {
+    // Each record holds at least its type and length, and all of it is in the header
+    if (left < 3 || get_ui2(pnt+1) < 3 || get_ui2(pnt+1) > left)
+      throw std::runtime_error("invalid record length in HRIT header");
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -125,7 +133,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Image Structure Header mismatch");
         }
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
@@ -137,7 +145,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Image Navigation Header mismatch");
         }
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
@@ -156,7 +164,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Annotation Header mismatch");
         }
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
@@ -168,7 +176,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Timestamp Header mismatch");
         }
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
@@ -187,7 +195,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Key Header mismatch");
         }
         key = new MSG_header_key;
         key->read_from(pnt);
@@ -199,7 +207,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Segment Id Header mismatch");
         }
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
@@ -207,6 +215,10 @@ void MSG_header::read_from( std::ifstream &in )
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        if (!image_structure)
+          throw std::runtime_error("HRIT line quality header without an image structure header");
+        if ((size_t) get_ui2(pnt+1) < 3 + (size_t) image_structure->number_of_lines * MSG_SEGMENT_QUALITY_RECORD_LEN)
+          throw std::runtime_error("HRIT line quality header is too short");
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
         hqlen = get_ui2(pnt+1);
@@ -216,11 +228,10 @@ void MSG_header::read_from( std::ifstream &in )
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("Unknown header type");
         break;
       }
    }
-   delete [ ] hbuff;
    return;
 }
 
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..0dda925 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
 
@@ -56,14 +57,14 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("invalid length of HRIT ancillary text header");
   }
   ancillary_text = new char_1[h_length];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("invalid length of HRIT ancillary text header");
   }
   memcpy(ancillary_text, buff+3, h_length);
   return;
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..64825c2 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
 MSG_header_image_datafunc::MSG_header_image_datafunc( )
@@ -49,14 +50,14 @@ void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("invalid length of HRIT data function header");
   }
   char_1 *tmpchar = new char_1[h_length];
   if (!tmpchar)
   {
     std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("invalid length of HRIT data function header");
   }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..597e537 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -29,6 +29,7 @@
 
 #include <cstring>
 #include <cstdio>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header_image_navig.h>
 
@@ -46,8 +47,9 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
@@ -70,9 +72,12 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
     projection_name[5] = 0;
     pname = projection_name;
     tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
+    if (tmp == NULL)
+      throw std::runtime_error("malformed projection name in HRIT navigation header");
+    *(tmp++) = 0;
     sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
+    char_1 *end = strchr(tmp, ')');
+    if (end != NULL) *end = 0;
     sscanf(tmp, "%f", &projection_longitude);
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
-- 
2.43.0


From 6c05ec85d23c4e97e3214b77c93c43e8a782b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 004/105] fix: reading an HRIT header forgets the previous one;
 refuse incomplete segments

The same header object is filled from one segment after the other: records the
last file does not have were those of a previous file, and records missing
altogether were dereferenced.
---
 msat/hrit/MSG_header.cpp | 33 ++++++++++++++++++++++++---------
 msat/hrit/MSG_header.h   |  2 ++
 msat/xrit/dataaccess.cpp |  7 +++++++
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 722c8e0..c6d2bb0 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -62,15 +62,29 @@ MSG_header::MSG_header( std::ifstream &in )
 
 MSG_header::~MSG_header( )
 {
-  if (image_structure) delete image_structure;
-  if (image_navigation) delete image_navigation;
-  if (image_data_function) delete image_data_function;
-  if (annotation) delete annotation;
-  if (timestamp) delete timestamp;
-  if (ancillary_text) delete ancillary_text;
-  if (key) delete key;
-  if (segment_id) delete segment_id;
-  if (segment_quality) delete segment_quality;
+  clear( );
+}
+
+void MSG_header::clear( )
+{
+  delete image_structure;
+  image_structure = 0;
+  delete image_navigation;
+  image_navigation = 0;
+  delete image_data_function;
+  image_data_function = 0;
+  delete annotation;
+  annotation = 0;
+  delete timestamp;
+  timestamp = 0;
+  delete ancillary_text;
+  ancillary_text = 0;
+  delete key;
+  key = 0;
+  delete segment_id;
+  segment_id = 0;
+  delete segment_quality;
+  segment_quality = 0;
 }
 
 void MSG_header::read_from( std::ifstream &in )
@@ -78,6 +92,7 @@ void MSG_header::read_from( std::ifstream &in )
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
   unsigned char_1 *hbuff;
 
+  clear( );
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
diff --git a/msat/hrit/MSG_header.h b/msat/hrit/MSG_header.h
index 7fa84ad..c6ead87 100644
--- a/msat/hrit/MSG_header.h
+++ b/msat/hrit/MSG_header.h
@@ -77,6 +77,8 @@ class MSG_header {
     ~MSG_header( );
 
     void read_from( std::ifstream &in );
+    /// Forget what was read before
+    void clear( );
 
     // Overloaded << operator
     friend std::ostream& operator<< ( std::ostream& os, MSG_header &h );
diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..865c1a2 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -66,6 +66,11 @@ void DataAccess::read_file(const std::string& file, MSG_header& head, MSG_data&
 
 void DataAccess::scanSegment(const MSG_header& header)
 {
+    if (!header.segment_id || !header.image_structure || !header.image_navigation)
+        throw std::runtime_error("segment without image structure, navigation or segment identification header");
+    if (header.image_structure->number_of_lines == 0)
+        throw std::runtime_error("segment without lines");
+
     // Decoding information
     int totalsegs = header.segment_id->planned_end_segment_sequence_number;
     seglines = header.image_structure->number_of_lines;
@@ -101,6 +106,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id)
+            throw std::runtime_error(i + ": no segment identification header");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
-- 
2.43.0


From b53deaeef85a90f9652d34c6e4ee64c42dd9246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 005/105] fix: report malformed HRIT data fields with an
 exception

---
 msat/hrit/MSG_data.cpp | 133 ++++++++++++++++++++++-------------------
 1 file changed, 70 insertions(+), 63 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..17c2d27 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -29,8 +29,36 @@
 
 #include <string>
 #include <fstream>
+#include <stdexcept>
+#include <vector>
 #include <msat/hrit/MSG_data.h>
 
+// Sizes of the level 1.5 header and trailer, up to the last record that is decoded
+static const size_t MSG_PROLOGUE_LEN = MSG_SATELLITE_STATUS_LEN
+  + MSG_IMAGE_ACQUISITION_LEN + MSG_CELESTIAL_EVENTS_LEN
+  + MSG_IMAGE_DESCRIPTION_LEN + MSG_DATA_RADIOMETRIC_PROC_LEN
+  + MSG_GEOMETRIC_PROCESSING_LEN;
+static const size_t MSG_EPILOGUE_LEN = 1 + MSG_IMAGE_PRODUCT_STATS_LEN
+  + MSG_NAVIGATION_EXTR_RESULT_LEN + MSG_RADIOMETRIC_QUALITY_LEN
+  + MSG_GEOMETRIC_QUALITY_LEN + MSG_TIMELINESS_COMPLETENESS_LEN;
+
+// Read the whole data field, which must be all in the file
+static void read_data_field(std::ifstream &in, const MSG_header &header,
+                            std::vector<unsigned char_1> &buf)
+{
+  size_t dsize = header.data_field_length / 8;
+  std::streampos start = in.tellg( );
+  in.seekg(0, std::ios::end);
+  std::streamoff available = in.tellg( ) - start;
+  in.seekg(start);
+  if (in.fail( ) || available < 0 || dsize > (size_t) available)
+    throw std::runtime_error("HRIT data field is longer than the file");
+  buf.resize(dsize + 1);
+  in.read((char *) buf.data( ), dsize);
+  if (in.fail( ))
+    throw std::runtime_error("cannot read HRIT data field");
+}
+
 std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_header &h )
 {
   os << h.sat_status
@@ -64,7 +92,7 @@ MSG_data::MSG_data( )
   sdsprologue  = 0;
 }
 
-MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
+MSG_data::MSG_data( std::ifstream &in, MSG_header &header) : MSG_data( )
 {
   read_from(in, header);
 }
@@ -84,6 +112,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 {
   size_t dsize;
   size_t dpos;
+  std::vector<unsigned char_1> dfield;
   unsigned char_1 *dbuff = 0;
   unsigned char_1 *dpnt = 0;
 
@@ -91,22 +120,19 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   switch (typecode)
   {
     case MSG_FILE_IMAGE_DATA:
+      if (!header.image_structure || !header.segment_id)
+        throw std::runtime_error("HRIT image without image structure or segment identification header");
       image = new MSG_data_image;
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
       {
-        image->len = dsize;
-        image->data = (MSG_SAMPLE *) ( new char[dsize] );
-        memcpy(image->data, dbuff, dsize);
+        image->len = dsize / sizeof(MSG_SAMPLE);
+        image->data = new MSG_SAMPLE[image->len];
+        memcpy(image->data, dbuff, image->len * sizeof(MSG_SAMPLE));
       }
       else
       {
@@ -122,15 +148,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
 
     case MSG_FILE_GTS_MESSAGE:
-
+      if (!header.annotation)
+        throw std::runtime_error("HRIT file without annotation header");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
       {
@@ -145,13 +167,8 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ALPHANUMERIC_TEXT:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
 
@@ -161,35 +178,26 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
 
       break;
 
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
+      if (!header.annotation)
+        throw std::runtime_error("HRIT file without annotation header");
       dsize = header.data_field_length / 8;
-
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
-
+        if (dsize < MSG_PROLOGUE_LEN)
+          throw std::runtime_error("HRIT prologue is too short");
         prologue = new MSG_data_level_15_header;
 
-
         dpnt = dbuff;
         dpos = prologue->sat_status.read_from(dpnt);
         dpnt += dpos;
@@ -216,6 +224,13 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
                       != std::string::npos)
       {
         dpnt = dbuff;
+        // The common header, then a product specific one that tells its length
+        size_t common = 42 + MSG_TIME_CDS_LEN;
+        if (dsize < common + 8)
+          throw std::runtime_error("HRIT prologue is too short");
+        size_t specific = get_ui4(dbuff + common + 4);
+        if (specific < 8 || specific > dsize - common)
+          throw std::runtime_error("HRIT prologue is too short");
         sdsprologue = new MSG_data_SGS_header;
         dpos = sdsprologue->read_from(dpnt);
         dpnt += dpos;
@@ -231,18 +246,16 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
 
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
+      if (!header.annotation)
+        throw std::runtime_error("HRIT file without annotation header");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
-
+        if (dsize < MSG_EPILOGUE_LEN)
+          throw std::runtime_error("HRIT epilogue is too short");
         epilogue = new MSG_data_level_15_trailer;
 
         dpnt = dbuff+1;
@@ -267,15 +280,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
 
     case MSG_FILE_BINARY_MESSAGE:
-
+      if (!header.annotation)
+        throw std::runtime_error("HRIT file without annotation header");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      read_data_field(in, header, dfield);
+      dbuff = dfield.data( );
       {
         std::ofstream os;
         std::string outname;
@@ -283,7 +292,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
+          throw std::runtime_error(outname + ": cannot open for writing");
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
@@ -291,12 +300,10 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     default:
       std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
+      throw std::runtime_error("unknown HRIT file type");
       break;
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
-- 
2.43.0


From 6dac5d577112d06848126716760d278ecc2620cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 006/105] fix: do not read past the end of short segments

---
 msat/xrit/dataaccess.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 865c1a2..6d0687f 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -24,6 +24,7 @@
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
 #include <stdexcept>
+#include <memory>
 
 using namespace std;
 
@@ -125,6 +126,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
 
     if (hrv)
     {
+        if (!epi.epilogue)
+            throw std::runtime_error("no HRV coverage in the epilogue");
         MSG_ActualL15CoverageHRV& cov = epi.epilogue->product_stats.ActualL15CoverageHRV;
         LowerEastColumnActual = cov.LowerEastColumnActual;
         LowerNorthLineActual = cov.LowerNorthLineActual;
@@ -186,10 +189,13 @@ MSG_data* DataAccess::segment(size_t idx) const
         // Load the segment
         // ProgressTask p("Reading segment " + segnames[idx]);
         MSG_header header;
+        std::unique_ptr<MSG_data> data(new MSG_data);
+        read_file(segnames[idx].c_str(), header, *data);
+        if (!data->image || data->image->len < npixperseg)
+            throw std::runtime_error(segnames[idx] + ": segment data is too short");
         scache new_scache;
-        new_scache.segment = new MSG_data;
+        new_scache.segment = data.release();
         new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
 
         // Put it in the front
         segcache.push_front(new_scache);
-- 
2.43.0


From b28d21cad4b082f6d973efd7cf8b2dc250cc12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 007/105] fix: the xRIT driver reports errors to GDAL and
 checks what it reads

---
 gdal/utils.cpp           | 23 +++++++++++------------
 gdal/xrit/dataset.cpp    |  6 ++++++
 gdal/xrit/rasterband.cpp | 21 +++++++++++++++++++--
 gdal/xrit/rasterband.h   |  1 +
 gdal/xrit/xrit.cpp       | 12 +++++++++++-
 5 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index 6e0f524..d9f9ab1 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -1,5 +1,7 @@
 #include <cpl_string.h>
 #include <gdal_version.h>
+#include <memory>
+#include <stdexcept>
 #include "msat/gdal/const.h"
 #include "msat/hrit/MSG_channel.h"
 #include "gdal/reflectance/reflectance.h"
@@ -13,11 +15,12 @@ using namespace std;
 namespace msat {
 namespace gdal {
 
-GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
+GDALDataset* add_extras(GDALDataset* src_ds, GDALOpenInfo* info)
 {
 #if GDAL_VERSION_MAJOR >= 2
+    unique_ptr<GDALDataset> src(src_ds);
     int idx = CSLFindName(info->papszOpenOptions, "MSAT_COMPUTE");
-    if (idx == -1) return src;
+    if (idx == -1) return src.release();
     std::string val(CPLParseNameValue(info->papszOpenOptions[idx], nullptr));
 
     if (val == "reflectance")
@@ -31,29 +34,25 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
             throw std::runtime_error("IR 0.39 reflectance cannot yet be computed via MSAT_COMPUTE open option");
 
         unique_ptr<msat::utils::ReflectanceDataset> rds(new msat::utils::ReflectanceDataset(channel_id));
-        rds->add_source(src, true);
+        rds->add_source(src.release(), true);
         rds->init_rasterband();
         return rds.release();
     } else if (val == "sat_za") {
-        unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src));
-        delete src;
+        unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src.get()));
         return rds.release();
     } else if (val == "cos_sol_za") {
-        unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src));
-        delete src;
+        unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src.get()));
         return rds.release();
     } else if (val == "jday") {
-        unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src));
-        delete src;
+        unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src.get()));
         return rds.release();
     } else {
-        delete src;
         CPLError(CE_Failure, CPLE_AppDefined, "Unsupported value '%s' for MSAT_COMPUTE", val.c_str());
         return nullptr;
     }
+#else
+    return src_ds;
 #endif
-
-    return src;
 }
 
 }
diff --git a/gdal/xrit/dataset.cpp b/gdal/xrit/dataset.cpp
index f013e7a..bda1aa4 100644
--- a/gdal/xrit/dataset.cpp
+++ b/gdal/xrit/dataset.cpp
@@ -6,6 +6,8 @@
 #include <msat/hrit/MSG_HRIT.h>
 #include <memory>
 #include <ctime>
+#include <stdexcept>
+#include <string>
 
 using namespace std;
 
@@ -36,6 +38,10 @@ bool XRITDataset::init()
     MSG_data EPI_data;
     MSG_header header;
     da.scan(fa, PRO_data, EPI_data, header);
+    if (!PRO_data.prologue)
+        throw std::runtime_error("the prologue file has no prologue data");
+    if (header.segment_id->spectral_channel_id < 1 || header.segment_id->spectral_channel_id > 12)
+        throw std::runtime_error("unsupported spectral channel " + std::to_string((int)header.segment_id->spectral_channel_id));
 
     if (da.hrv)
     {
diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..54adcee 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -3,6 +3,8 @@
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <stdexcept>
+#include <vector>
 
 namespace msat {
 namespace xrit {
@@ -48,6 +50,9 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     if (!linear)
     {
         int bpp = header.image_structure->number_of_bits_per_pixel;
+        if (bpp < 1 || bpp > 16)
+            throw std::runtime_error("unsupported number of bits per pixel");
+        calibration_size = 1u << bpp;
         calibration = PRO_data.prologue->radiometric_proc.get_calibration(channel_id, bpp);
     }
 
@@ -77,19 +82,27 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     size_t linestart = xds->da.line_start(yblock);
+    if (xds->da.columns > (size_t)nBlockXSize || linestart > nBlockXSize - xds->da.columns)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Line %d does not fit in the image", yblock);
+        return CE_Failure;
+    }
 
+    try {
     if (linear)
     {
         bzero(buf, nBlockXSize * sizeof(uint16_t));
         xds->da.line_read(yblock, (MSG_SAMPLE*)buf + linestart);
     } else {
         float* fbuf = (float*)buf;
-        MSG_SAMPLE rawbuf[xds->da.columns];
-        xds->da.line_read(yblock, rawbuf);
+        std::vector<MSG_SAMPLE> rawbuf(xds->da.columns);
+        xds->da.line_read(yblock, rawbuf.data());
         for (size_t i = 0; i < linestart; ++i)
             fbuf[i] = 0.0;
         for (size_t i = 0; i < xds->da.columns; ++i)
         {
+            if (rawbuf[i] >= calibration_size)
+                throw std::runtime_error("sample larger than its number of bits per pixel");
             float res = calibration[rawbuf[i]];
             if (res < 0 || isnan(res)) res = 0;
             fbuf[linestart + i] = res;
@@ -97,6 +110,10 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
         for (size_t i = linestart + xds->da.columns; i < (size_t)nBlockXSize; ++i)
             fbuf[i] = 0.0;
     }
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_FileIO, "Cannot read line %d: %s", yblock, e.what());
+        return CE_Failure;
+    }
 
     return CE_None;
 }
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 4c1ad79..3907240 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -18,6 +18,7 @@ public:
     bool linear;
     int channel_id;
     float* calibration;
+    size_t calibration_size = 0;
 
     XRITRasterBand(XRITDataset* ds, int idx);
     ~XRITRasterBand();
diff --git a/gdal/xrit/xrit.cpp b/gdal/xrit/xrit.cpp
index 76620d8..37ac537 100644
--- a/gdal/xrit/xrit.cpp
+++ b/gdal/xrit/xrit.cpp
@@ -15,7 +15,7 @@ namespace xrit {
 
 GDALDataset* XRITOpen(GDALOpenInfo* info);
 
-GDALDataset* XRITOpen(GDALOpenInfo* info)
+static GDALDataset* open_xrit(GDALOpenInfo* info)
 {
     // Se if it looks like a XRIT filename
     if (!msat::xrit::isValid(info->pszFilename))
@@ -77,6 +77,16 @@ GDALDataset* XRITOpen(GDALOpenInfo* info)
     }
 }
 
+GDALDataset* XRITOpen(GDALOpenInfo* info)
+{
+    try {
+        return open_xrit(info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_OpenFailed, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
+}
+
 }
 }
 
-- 
2.43.0


From b9ecb9a04e38c11e9ad79b61d18a18d83d360397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 008/105] fix: the GRIB driver reports errors to GDAL

---
 gdal/grib/grib.cpp | 36 +++++++++++++++++++++++++++---------
 gdal/grib/utils.h  |  1 +
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 47aece5..3626030 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -68,10 +68,15 @@ public:
 			return CE_Failure;
 		}
 
-		size_t length = nRasterXSize * nRasterYSize;
-		grib.get_double_array("values", (double*)buf, &length);
-		if (length != (size_t)(nRasterXSize * nRasterYSize)) {
-			CPLError(CE_Failure, CPLE_AppDefined, "Only %d values read instead of %d", (int)length, nRasterXSize * nRasterYSize);
+		size_t expected = (size_t)nRasterXSize * nRasterYSize;
+		size_t length = expected;
+		try {
+			grib.get_double_array("values", (double*)buf, &length);
+		} catch (griberror& e) {
+			return CE_Failure;
+		}
+		if (length != expected) {
+			CPLError(CE_Failure, CPLE_AppDefined, "Only %zu values read instead of %zu", length, expected);
 			return CE_Failure;
 		}
 		return CE_None;
@@ -92,6 +97,8 @@ public:
 		try {
 			nRasterXSize = grib.get_long("numberOfPointsAlongXAxis");
 			nRasterYSize = grib.get_long("numberOfPointsAlongYAxis");
+			if (!GDALCheckDatasetDimensions(nRasterXSize, nRasterYSize))
+				return false;
 			nBands = 1;
 
 			// Datetime
@@ -224,9 +231,14 @@ GDALDataset* GRIBOpen(GDALOpenInfo* info)
     unique_ptr<GRIBDataset> ds(new GRIBDataset(move(grib)));
 
     // Initialise the dataset
-    if (!ds->init()) return NULL;
+    try {
+        if (!ds->init()) return NULL;
 
-    return msat::gdal::add_extras(ds.release(), info);
+        return msat::gdal::add_extras(ds.release(), info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_OpenFailed, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
 }
 
 #if 0
@@ -608,7 +620,8 @@ struct CreateGRIB2 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB2");
+        if (grib.new_from_samples(NULL, "GRIB2") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -782,7 +795,8 @@ struct CreateGRIB1 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB1");
+        if (grib.new_from_samples(NULL, "GRIB1") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -861,11 +875,15 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
             return nullptr;
         }
 
-        grib.write(pszFilename);
+        if (grib.write(pszFilename) != CE_None)
+            return nullptr;
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
         return nullptr;
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s: %s", pszFilename, e.what());
+        return nullptr;
     }
 }
 
diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c5605d4..c1e7c43 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -47,6 +47,7 @@ struct Grib
 #ifdef TRACE_GRIBAPI
     FILE* trace = nullptr;
     #define trace(...) do {\
+            if (!trace) break; \
             fprintf(trace, "GH %p: ", static_cast<const void*>(gh)); \
             fprintf(trace, __VA_ARGS__); \
             fprintf(trace, "\n"); \
-- 
2.43.0


From f79cd58941de4264d65fd743cd89dc1664b9fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 009/105] fix: recode honours the target size and translations
 can be repeated

---
 msat/gdal/dataset.cpp       |  9 ++++++++
 msat/gdal/gdaltranslate.cpp | 41 +++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..598e424 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -124,7 +124,16 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	// Resample to the target size, if it is not the size of the crop area
+	std::string osx = std::to_string(sx), osy = std::to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = osx.c_str();
+		translate.pszOYSize = osy.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
+	if (vds == NULL) return NULL;
 
 	char** options = 0;
 	if (!opt1.empty()) options = CSLAddString(options, opt1.c_str());
diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..ab43f6a 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,7 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <ostream>
+#include <vector>
 
 using namespace std;
 
@@ -46,6 +47,15 @@ CPL_CVSID("$Id: gdal_translate.cpp 15640 2008-10-29 20:19:56Z rouault $");
 static void AttachMetadata( GDALDatasetH, char ** );
 // static int bSubCall = FALSE;
 
+/* An output size: in pixels, or as a percentage of the source window */
+static int parseSize( const char *pszSize, int nSrcSize )
+{
+    size_t nLen = strlen(pszSize);
+    if( nLen > 0 && pszSize[nLen-1] == '%' )
+        return (int) (atof(pszSize)/100*nSrcSize);
+    return atoi(pszSize);
+}
+
 GDALTranslate::GDALTranslate()
 {
     eOutputType = GDT_Unknown;
@@ -90,6 +100,7 @@ GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
     CSLDestroy( papszCreateOptions );
+    CSLDestroy( papszMetadataOptions );
 }
 
 /************************************************************************/
@@ -110,6 +121,14 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     // int                 iSrcFileArg = -1, iDstFileArg = -1;
     // int                 bCopySubDatasets = FALSE;
 
+    // Work on copies of what gets completed from the dataset, so that the same
+    // request can be applied to other datasets
+    int anSrcWin[4] = { this->anSrcWin[0], this->anSrcWin[1], this->anSrcWin[2], this->anSrcWin[3] };
+    int nBandCount = this->nBandCount;
+    int bDefBands = this->bDefBands;
+    int *panBandList = this->panBandList;
+    vector<int> allBands;
+
     /* Check strict compilation and runtime library version as we use C++ API */
     if (! GDAL_CHECK_VERSION("GDALTranslate"))
         return NULL;
@@ -204,9 +223,9 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        panBandList = (int *) CPLMalloc(sizeof(int)*nBandCount);
         for( i = 0; i < nBandCount; i++ )
-            panBandList[i] = i+1;
+            allBands.push_back(i+1);
+        panBandList = allBands.data();
     }
     else
     {
@@ -219,6 +238,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
                          panBandList[i], GDALGetRasterCount(hDataset) );
                 return NULL;
             }
+            if( panBandList[i] != i+1 )
+                bDefBands = FALSE;
         }
 
         if( nBandCount != GDALGetRasterCount( hDataset ) )
@@ -317,17 +338,21 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
 /*      Establish some parameters.                                      */
 /* -------------------------------------------------------------------- */
-    if( pszOXSize == NULL )
+    if( pszOXSize == NULL || pszOYSize == NULL )
     {
         nOXSize = anSrcWin[2];
         nOYSize = anSrcWin[3];
     }
     else
     {
-        nOXSize = (int) ((pszOXSize[strlen(pszOXSize)-1]=='%' 
-                          ? atof(pszOXSize)/100*anSrcWin[2] : atoi(pszOXSize)));
-        nOYSize = (int) ((pszOYSize[strlen(pszOYSize)-1]=='%' 
-                          ? atof(pszOYSize)/100*anSrcWin[3] : atoi(pszOYSize)));
+        nOXSize = parseSize( pszOXSize, anSrcWin[2] );
+        nOYSize = parseSize( pszOYSize, anSrcWin[3] );
+        if( nOXSize <= 0 || nOYSize <= 0 )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined,
+                     "Output size %dx%d is illegal.", nOXSize, nOYSize );
+            return NULL;
+        }
     }
     
 /* ==================================================================== */
@@ -579,8 +604,6 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
         GDALSetMetadataItem(hDS,pszKey,pszValue,NULL);
         CPLFree( pszKey );
     }
-
-    CSLDestroy( papszMetadataOptions );
 }
 
 void GDALTranslate::dump(std::ostream& out)
-- 
2.43.0


From 624787a73c76332b2916c90e9f291f728db5a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 010/105] fix: radiance_to_reflectance accepts the channels it
 is for

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..b8d6994 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <iomanip>
 #include <cmath>
+#include <stdexcept>
 #include <msat/facts.h>
 #include <msat/hrit/MSG_data_RadiometricProc.h>
 
@@ -664,11 +665,8 @@ float radiance_to_reflectance(int chnum, float radiance,
                               int hour, int minute,
                               float lat, float lon)
 {
-  if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
-  {
-    std::cerr << "Wrong channel number : " << chnum << std::endl;
-    throw;
-  }
+  if (chnum != 1 && chnum != 2 && chnum != 3 && chnum != 12)
+    throw std::runtime_error("Wrong channel number : " + std::to_string(chnum));
 
   int jd = msat::facts::jday(year, month, day);
   double esd = 1.0 - 0.0167 * cos( 2.0 * M_PI * (jd - 3) / 365.0);
@@ -680,6 +678,6 @@ float radiance_to_reflectance(int chnum, float radiance,
   double cos_sza = msat::facts::cos_sol_za(year, month, day, hour, minute, lat, lon);
   // Use cos(80°) as lower bound, to avoid division by zero
   if (cos_sza < cos80)
-    return cos80;
+    cos_sza = cos80;
   return 100.0 * radiance / tr / cos_sza;
 }
-- 
2.43.0


From a7fcd4013b7cc47cc5cd796c6d713ae70d9e2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 011/105] fix: read the DCR values from their place in the
 prologue

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index b8d6994..5da36b5 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -362,7 +362,7 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
+  memcpy(DCRValues, buff+position, 63);
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
-- 
2.43.0


From 102470d778a7b2e7e87d6ab61b179522c1684353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 012/105] fix: GRIB writing refuses datasets without
 projection, geotransform or bands, and only the set nodata value is missing

---
 gdal/grib/grib.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 3626030..1b8516a 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -315,15 +315,17 @@ struct CreateGRIB
 {
     Grib& grib;
     GDALDataset* src;
-    GDALRasterBand* rb;
+    GDALRasterBand* rb = nullptr;
     OGRSpatialReference osr;
     std::vector<double> values;
     size_t count_missing = 0;
     double grib_missing = 0;
 
     CreateGRIB(Grib& grib, GDALDataset* src)
-        : grib(grib), src(src), rb(src->GetRasterBand(1)), osr(*src->GetSpatialRef())
+        : grib(grib), src(src)
     {
+        if (const OGRSpatialReference* sref = src->GetSpatialRef())
+            osr = *sref;
     }
 
     virtual ~CreateGRIB() {}
@@ -331,6 +333,12 @@ struct CreateGRIB
     virtual bool create()
     {
         // Sanity checks
+        if (src->GetRasterCount() < 1)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "the source dataset has no raster bands");
+            return false;
+        }
+        rb = src->GetRasterBand(1);
         const char *stype = osr.GetAttrValue("PROJECTION");
         if (!stype)
         {
@@ -349,13 +357,14 @@ struct CreateGRIB
             return false;
 
         // Scale values and count missing values
-        double missing = rb->GetNoDataValue();
+        int has_missing = FALSE;
+        double missing = rb->GetNoDataValue(&has_missing);
         double offset = rb->GetOffset();
         double scale = rb->GetScale();
         grib_missing = missing * scale + offset;
         for (auto& v: values)
         {
-            if (v == missing)
+            if (has_missing && v == missing)
             {
                 ++count_missing;
                 v = grib_missing;
@@ -436,7 +445,11 @@ struct CreateGRIB2 : public CreateGRIB
         // (see /usr/share/grib_api/definitions/grib2/template.3.90.def)
 
         double gt[6];
-        src->GetGeoTransform(gt);
+        if (src->GetGeoTransform(gt) != CE_None)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "the source dataset has no geotransform matrix");
+            return false;
+        }
         if (gt[2] != 0.0)
         {
             CPLError(CE_Failure, CPLE_AppDefined, "3rd element of geotransform matrix is not zero");
@@ -692,7 +705,11 @@ struct CreateGRIB1 : public CreateGRIB
         // (see /usr/share/grib_api/definitions/grib2/template.3.90.def)
 
         double gt[6];
-        src->GetGeoTransform(gt);
+        if (src->GetGeoTransform(gt) != CE_None)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "the source dataset has no geotransform matrix");
+            return false;
+        }
         if (gt[2] != 0.0)
         {
             CPLError(CE_Failure, CPLE_AppDefined, "3rd element of geotransform matrix is not zero");
-- 
2.43.0


From 036c0f31645dc73ff7f872edc4223739fdf5e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 013/105] fix: read every field of prologue, epilogue, key
 messages and IMPF configuration from its place

---
 msat/hrit/MSG_data_GeometricProc.cpp     | 2 +-
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 2 +-
 msat/hrit/MSG_data_NavigExtrResult.cpp   | 2 +-
 msat/hrit/MSG_data_key.cpp               | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 96e46dc..40fa0a8 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -61,8 +61,8 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   for (int i = 0; i < nkeys; i ++)
   {
     keys[i].User_Station_number = get_ui2(pnt);
-    keys[i].Key_Number = *(pnt+1);
-    memcpy(keys[i].Public_key, pnt+2, 192);
+    keys[i].Key_Number = *(pnt+2);
+    memcpy(keys[i].Public_key, pnt+3, 192);
     keys[i].Public_Key_CRC = get_ui2(pnt+195);
     pnt = pnt + MSG_KEY_MESSAGE_LEN;
   }
-- 
2.43.0


From ac26a4e319b9e3e69f3dd00b634ca54b1bf4660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 014/105] fix: printing HRIT messages does not read past their
 texts nor through missing parts

---
 msat/hrit/MSG_data.cpp                  | 5 +++--
 msat/hrit/MSG_data_SGS_header.cpp       | 4 ++--
 msat/hrit/MSG_data_key.cpp              | 2 +-
 msat/hrit/MSG_data_text.cpp             | 2 +-
 msat/hrit/MSG_header_ancillary_text.cpp | 3 ++-
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 17c2d27..8012ff1 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -327,10 +327,11 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
       os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      os << *(h.prologue);
+      if (h.prologue) os << *(h.prologue);
+      if (h.sdsprologue) os << *(h.sdsprologue);
       break;
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      os << *(h.epilogue);
+      if (h.epilogue) os << *(h.epilogue);
       break;
     case MSG_FILE_DCP_MESSAGE:
       os << "DCP message." << std::endl;
diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index b462f12..3b269f5 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -75,8 +75,8 @@ std::ostream& operator<< (std::ostream& os, MSG_SGSCommonHeader &h)
      << std::endl
      << "Proc. Instance Id   : " << (uint_2) h.SGSProcessingInstanceId
      << std::endl
-     << "Base Algorithm      : " << h.BaseAlgorithmVersion << std::endl
-     << "Product Algorithm   : " << h.ProductAlgorithmVersion << std::endl;
+     << "Base Algorithm      : " << std::string((const char *) h.BaseAlgorithmVersion, strnlen((const char *) h.BaseAlgorithmVersion, sizeof(h.BaseAlgorithmVersion))) << std::endl
+     << "Product Algorithm   : " << std::string((const char *) h.ProductAlgorithmVersion, strnlen((const char *) h.ProductAlgorithmVersion, sizeof(h.ProductAlgorithmVersion))) << std::endl;
   return os;
 }
 
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 40fa0a8..7d90d47 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -71,7 +71,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 
 std::ostream& operator<< ( std::ostream& os, MSG_encryption_key &k )
 {
-  std::string keystr = k.Public_key;
+  std::string keystr((const char *) k.Public_key, strnlen((const char *) k.Public_key, sizeof(k.Public_key)));
   os << "User Station Number : " << (uint_2) k.User_Station_number
      << std::endl
      << "Key Number          : " << (uint_2) k.Key_Number << std::endl
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index c9b83c0..01b4245 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -92,7 +92,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_text &t )
      << "-           MSG ALPHANUMERIC TEXT FILE               -" << std::endl
      << "------------------------------------------------------" << std::endl;
   os << "****************" << std::endl;
-  os << t.tbuff << std::endl;
+  os.write((const char *) t.tbuff, t.tsize) << std::endl;
   os << "****************" << std::endl;
   return os;
 }
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 0dda925..39d468c 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -59,7 +59,7 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
     std::cerr << "Header Length : " << h_length << std::endl;
     throw std::runtime_error("invalid length of HRIT ancillary text header");
   }
-  ancillary_text = new char_1[h_length];
+  ancillary_text = new char_1[h_length+1];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
@@ -67,6 +67,7 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
     throw std::runtime_error("invalid length of HRIT ancillary text header");
   }
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
-- 
2.43.0


From 9bb973cac3664426bc07411174d650e00423ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 015/105] fix: the common header of foreign prologues is 46
 bytes long

---
 msat/hrit/MSG_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 8012ff1..29bf26c 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -225,7 +225,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       {
         dpnt = dbuff;
         // The common header, then a product specific one that tells its length
-        size_t common = 42 + MSG_TIME_CDS_LEN;
+        size_t common = 40 + MSG_TIME_CDS_LEN;
         if (dsize < common + 8)
           throw std::runtime_error("HRIT prologue is too short");
         size_t specific = get_ui4(dbuff + common + 4);
-- 
2.43.0


From 3c9cca9bab3ce65c0956abea3c23f424e83a2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 016/105] fix: the DCR values do not overflow their place

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 5da36b5..af15270 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -362,7 +362,7 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff+position, 63);
+  memcpy(DCRValues, buff+position, sizeof(DCRValues));
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
-- 
2.43.0


From 171948caa3c44569588d823af6f1116a63652b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 017/105] fix: get_timechar does not return a pointer to a
 string that is gone

---
 msat/hrit/MSG_time_cds.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..63fbc85 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -122,7 +122,9 @@ std::string MSG_time_cds_short::get_timestring( ) const
 
 char_1 *MSG_time_cds_short::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_short &h )
@@ -247,7 +249,9 @@ std::string MSG_time_cds_expanded::get_timestring( ) const
 
 char_1 *MSG_time_cds_expanded::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_expanded &h )
@@ -310,7 +314,9 @@ std::string MSG_time_cds::get_timestring( ) const
 
 char_1 *MSG_time_cds::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds &h )
@@ -377,7 +383,9 @@ std::string MSG_time_generalized::get_timestring( ) const
 
 char_1 *MSG_time_generalized::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_generalized &h )
-- 
2.43.0


From e8a59325164813f6922ebe54901039832ebf6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 018/105] fix: generalized times are UTC whatever the local
 time zone

---
 msat/hrit/MSG_time_cds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 63fbc85..f50c49c 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -355,7 +355,7 @@ size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 
 time_t MSG_time_generalized::get_unixtime( )
 {
-  return mktime(&generalized_time);
+  return timegm(&generalized_time);
 }
 
 struct tm *MSG_time_generalized::get_timestruct( )
-- 
2.43.0


From c14bee5a2d08229b954e66d40fc32a15331bdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 019/105] fix: unreadable native files were reported with a
 throw of nothing, which ends the program

---
 msat/msg-native/MSG_native.cpp         |  2 +-
 msat/msg-native/MSG_native_header.cpp  | 16 ++++++----------
 msat/msg-native/MSG_native_line.cpp    | 13 +++++--------
 msat/msg-native/MSG_native_trailer.cpp | 19 ++++++++-----------
 4 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..952e161 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -67,7 +67,7 @@ void MSG_native::close( )
     endcolumn[i] = 0;
   }
   nchannels = 0; 
-  if (in) in.close( );
+  if (in.is_open( )) in.close( );
   headerpos = datapos = trailerpos = 0;
   return;
 }
diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..0a83826 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_header.h>
 
 void U_MARF_Header::read_from(const unsigned char *buf)
@@ -89,30 +90,26 @@ void MSG_native_header::read( std::ifstream &in )
   in.read((char *) ubuf, mph_sph_header.mph_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header.");
   }
   mph_sph_header.read_from(ubuf);
 
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -132,8 +129,7 @@ void MSG_native_header::read( std::ifstream &in )
   p += MSG_IMPF_CONFIGURATION_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..6f555c1 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
 
@@ -190,29 +191,25 @@ void MSG_native_line::read( std::ifstream &in )
   in.read((char *) lbuf, pkh.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
   data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   if (data.datasize < 0)
   {
-    std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size.");
   }
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header.");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data.");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..249dee0 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_trailer.h>
 
 void MSG_native_trailer::read( std::ifstream &in )
@@ -32,24 +33,21 @@ void MSG_native_trailer::read( std::ifstream &in )
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Trailer Size: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error(
+                "Trailer Size: Read error from Native file: Level 1.5 Trailer.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Trailer: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error(
+                "Trailer: Read error from Native file: Level 1.5 Trailer.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -65,9 +63,8 @@ void MSG_native_trailer::read( std::ifstream &in )
   p += MSG_TIMELINESS_COMPLETENESS_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Trailer checksum: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error(
+                "Trailer checksum: Read error from Native file: Level 1.5 Trailer.");
   }
 
   return;
-- 
2.43.0


From 47c10b1c4788033a45d3c078f604e2256579e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 020/105] fix: the data of native lines was freed while still
 in use, and twice; short packets were not noticed

---
 msat/msg-native/MSG_native.cpp      | 12 ++++--------
 msat/msg-native/MSG_native_line.cpp | 30 +++++++++++++++++++++++++++--
 msat/msg-native/MSG_native_line.h   |  2 ++
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 952e161..13cd49f 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -115,20 +115,16 @@ void MSG_native::read( )
   sscanf(header.mph_sph_header.mphinfo[45].c_str( ),
          "%*s : %ld", &ncols);
 
-  MSG_native_line aline;
   for (int il = 0; il < nlines; il ++)
   {
     for (int ic = 0; ic < SEVIRI_CHANNELS; ic ++)
     {
       if (! selected_channel[ic]) continue;
-      aline.read(in);
-      line[ic].push_back(aline);
-      if (ic == 11)
+      int npackets = (ic == HRV_CHANNEL) ? 3 : 1;
+      for (int ip = 0; ip < npackets; ip ++)
       {
-        aline.read(in);
-        line[ic].push_back(aline);
-        aline.read(in);
-        line[ic].push_back(aline);
+        line[ic].push_back(MSG_native_line( ));
+        line[ic].back( ).read(in);
       }
     }
   }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 6f555c1..dbc4369 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <cstring>
 #include <stdexcept>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
@@ -32,6 +33,29 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata(const MSG_native_linedata &other)
+{
+  data_10bit = 0;
+  datasize = 0;
+  *this = other;
+}
+
+MSG_native_linedata &
+MSG_native_linedata::operator= (const MSG_native_linedata &other)
+{
+  if (this == &other) return *this;
+  unsigned char *copy = 0;
+  if (other.data_10bit)
+  {
+    copy = new unsigned char[other.datasize];
+    memcpy(copy, other.data_10bit, other.datasize);
+  }
+  delete [ ] data_10bit;
+  data_10bit = copy;
+  datasize = other.datasize;
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -194,11 +218,13 @@ void MSG_native_line::read( std::ifstream &in )
     throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  if (pkh.gp_packet_header.PacketLength < 15 + (unsigned long) header.lhlen)
   {
     throw std::runtime_error("Read error from Native file: Packet Size.");
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = 0;
+  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..4dae6d0 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,6 +88,8 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata(const MSG_native_linedata &other);
+    MSG_native_linedata &operator= (const MSG_native_linedata &other);
     ~MSG_native_linedata( );
 
     void to_sample(unsigned short **samples, long *nsample);
-- 
2.43.0


From dacad589ae1a8925b592c08d559a1906bac5bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 021/105] fix: samples of a native line not made of whole
 groups of four were written past their buffer

---
 msat/msg-native/MSG_native_line.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index dbc4369..2ceb7d1 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -189,21 +189,12 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
   if (*samples == 0) *samples = new unsigned short[*nsample];
 
   unsigned short *ps = *samples;
-  unsigned char  *pc = data_10bit;
-  unsigned int ipos = 0;
-  while (ipos < datasize)
+  for (long i = 0; i < *nsample; i ++)
   {
-    ps[0] = (((unsigned short) pc[0]      ) << 2) |
-            (((unsigned short) pc[1]      ) >> 6);
-    ps[1] = (((unsigned short) pc[1] &  63) << 4) |
-            (((unsigned short) pc[2]      ) >> 4);
-    ps[2] = (((unsigned short) pc[2] &  15) << 6) |
-            (((unsigned short) pc[3]      ) >> 2);
-    ps[3] = (((unsigned short) pc[3] &   3) << 8) |
-            (((unsigned short) pc[4]      )     );
-    pc   += 5;
-    ipos += 5;
-    ps   += 4;
+    // four samples every five bytes
+    const unsigned char *pc = data_10bit + i * bitsperpixel / bitsperbyte;
+    int skip = 2 * (i % 4);
+    ps[i] = ((((unsigned short) pc[0]) << 8 | pc[1]) >> (6 - skip)) & 1023;
   }
   return;
 }
-- 
2.43.0


From 99ea2243acbfb5f15f610ba3de5f2af4b35bac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 022/105] fix: texts of native headers were read beyond their
 field, and without looking if they had what was sought

---
 msat/msg-native/MSG_native.cpp        |  43 ++++-----
 msat/msg-native/MSG_native_header.cpp | 125 +++++++++++++++-----------
 msat/msg-native/MSG_native_header.h   |   2 +
 3 files changed, 93 insertions(+), 77 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 13cd49f..8bff9ba 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -23,7 +23,9 @@
 //-----------------------------------------------------------------------------
 #include <iostream>
 #include <fstream>
+#include <cstdio>
 #include <cstring>
+#include <stdexcept>
 #include <msat/msg-native/MSG_native.h>
 
 MSG_native::MSG_native( )
@@ -82,17 +84,19 @@ void MSG_native::read( )
   header.read(in);
   sscanf(header.mph_sph_header.mphinfo[8].c_str( ),
           "%*s : %*d %ld\n", &headerpos);
-  sscanf(header.mph_sph_header.mphinfo[9].c_str( ),
-          "%*s : %*d %ld\n", &datapos);
-  sscanf(header.mph_sph_header.mphinfo[10].c_str( ),
-          "%*s : %*d %ld\n", &trailerpos);
+  if (sscanf(header.mph_sph_header.mphinfo[9].c_str( ),
+             "%*s : %*d %ld\n", &datapos) != 1 ||
+      sscanf(header.mph_sph_header.mphinfo[10].c_str( ),
+             "%*s : %*d %ld\n", &trailerpos) != 1)
+    throw std::runtime_error("Native file header: no data positions.");
   in.seekg(trailerpos, std::ios::beg);
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
-  char bandsel[16];
-  sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
+  char bandsel[16] = "";
+  if (sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
+             "%*s : %15s", bandsel) != 1)
+    throw std::runtime_error("Native file header: no selected bands.");
   for (int i = 0; i < SEVIRI_CHANNELS; i ++)
   {
     if (bandsel[i] == 'X')
@@ -101,19 +105,12 @@ void MSG_native::read( )
       nchannels ++;
     }
   }
-  long nlines, ncols, startl, stopl, startc, stopc = 0;
-  sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
-         "%*s : %ld", &startl);
-  sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
-         "%*s : %ld", &stopl);
-  sscanf(header.mph_sph_header.mphinfo[44].c_str( ),
-         "%*s : %ld", &nlines);
-  sscanf(header.mph_sph_header.mphinfo[42].c_str( ),
-         "%*s : %ld", &startc);
-  sscanf(header.mph_sph_header.mphinfo[43].c_str( ),
-         "%*s : %ld", &stopc);
-  sscanf(header.mph_sph_header.mphinfo[45].c_str( ),
-         "%*s : %ld", &ncols);
+  long startl = header.mph_sph_header.number(40);
+  long stopl = header.mph_sph_header.number(41);
+  long startc = header.mph_sph_header.number(42);
+  long stopc = header.mph_sph_header.number(43);
+  long nlines = header.mph_sph_header.number(44);
+  long ncols = header.mph_sph_header.number(45);
 
   for (int il = 0; il < nlines; il ++)
   {
@@ -140,10 +137,8 @@ void MSG_native::read( )
   }
   if (selected_channel[HRV_CHANNEL])
   {
-    sscanf(header.mph_sph_header.mphinfo[46].c_str( ),
-           "%*s : %ld", &nlines);
-    sscanf(header.mph_sph_header.mphinfo[47].c_str( ),
-           "%*s : %ld", &ncols);
+    nlines = header.mph_sph_header.number(46);
+    ncols = header.mph_sph_header.number(47);
     numberlines[HRV_CHANNEL] = nlines;
     startline[HRV_CHANNEL] = startl;
     endline[HRV_CHANNEL] = stopl;
diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index 0a83826..e0c2dc0 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,67 +21,86 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <climits>
+#include <cstdio>
+#include <cstring>
 #include <stdexcept>
 #include <msat/msg-native/MSG_native_header.h>
 
+// The text in a field of the header, which is not terminated if it fills it
+static std::string text(const unsigned char *buf, size_t len)
+{
+  return std::string((const char *) buf, strnlen((const char *) buf, len));
+}
+
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
-  mphinfo[0]   = (char *) buf;
-  mphinfo[1]   = (char *) buf+80;
-  mphinfo[2]   = (char *) buf+160;
-  mphinfo[3]   = (char *) buf+240;
-  mphinfo[4]   = (char *) buf+320;
-  mphinfo[5]   = (char *) buf+400;
-  mphinfo[6]   = (char *) buf+480;
-  mphinfo[6]  += (char *) buf+526;
-  mphinfo[7]   = (char *) buf+542;
-  mphinfo[7]  += (char *) buf+588;
-  mphinfo[8]   = (char *) buf+604;
-  mphinfo[8]  += (char *) buf+650;
-  mphinfo[9]   = (char *) buf+666;
-  mphinfo[9]  += (char *) buf+712;
-  mphinfo[10]  = (char *) buf+728;
-  mphinfo[10] += (char *) buf+774;
-  mphinfo[11]  = (char *) buf+2154;
-  mphinfo[12]  = (char *) buf+2234;
-  mphinfo[13]  = (char *) buf+2314;
-  mphinfo[14]  = (char *) buf+2394;
-  mphinfo[15]  = (char *) buf+2474;
-  mphinfo[16]  = (char *) buf+2554;
-  mphinfo[17]  = (char *) buf+2634;
-  mphinfo[18]  = (char *) buf+2714;
-  mphinfo[19]  = (char *) buf+2794;
-  mphinfo[20]  = (char *) buf+2874;
-  mphinfo[21]  = (char *) buf+2954;
-  mphinfo[22]  = (char *) buf+3034;
-  mphinfo[23]  = (char *) buf+3114;
-  mphinfo[24]  = (char *) buf+3194;
-  mphinfo[25]  = (char *) buf+3274;
-  mphinfo[26]  = (char *) buf+3354;
-  mphinfo[27]  = (char *) buf+3434;
-  mphinfo[28]  = (char *) buf+3514;
-  mphinfo[29]  = (char *) buf+3594;
-  mphinfo[30]  = (char *) buf+3674;
-  mphinfo[31]  = (char *) buf+3754;
-  mphinfo[32]  = (char *) buf+3834;
-  mphinfo[33]  = (char *) buf+3914;
-  mphinfo[34]  = (char *) buf+3994;
-  mphinfo[35]  = (char *) buf+4074;
-  mphinfo[36]  = (char *) buf+4154;
-  mphinfo[37]  = (char *) buf+4234;
-  mphinfo[38]  = (char *) buf+4314;
-  mphinfo[39]  = (char *) buf+4394;
-  mphinfo[40]  = (char *) buf+4474;
-  mphinfo[41]  = (char *) buf+4554;
-  mphinfo[42]  = (char *) buf+4634;
-  mphinfo[43]  = (char *) buf+4714;
-  mphinfo[44]  = (char *) buf+4794;
-  mphinfo[45]  = (char *) buf+4874;
-  mphinfo[46]  = (char *) buf+4954;
-  mphinfo[47]  = (char *) buf+5034;
+  mphinfo[0]   = text(buf, 80);
+  mphinfo[1]   = text(buf+80, 80);
+  mphinfo[2]   = text(buf+160, 80);
+  mphinfo[3]   = text(buf+240, 80);
+  mphinfo[4]   = text(buf+320, 80);
+  mphinfo[5]   = text(buf+400, 80);
+  mphinfo[6]   = text(buf+480, 46);
+  mphinfo[6]  += text(buf+526, 16);
+  mphinfo[7]   = text(buf+542, 46);
+  mphinfo[7]  += text(buf+588, 16);
+  mphinfo[8]   = text(buf+604, 46);
+  mphinfo[8]  += text(buf+650, 16);
+  mphinfo[9]   = text(buf+666, 46);
+  mphinfo[9]  += text(buf+712, 16);
+  mphinfo[10]  = text(buf+728, 46);
+  mphinfo[10] += text(buf+774, 16);
+  mphinfo[11]  = text(buf+2154, 80);
+  mphinfo[12]  = text(buf+2234, 80);
+  mphinfo[13]  = text(buf+2314, 80);
+  mphinfo[14]  = text(buf+2394, 80);
+  mphinfo[15]  = text(buf+2474, 80);
+  mphinfo[16]  = text(buf+2554, 80);
+  mphinfo[17]  = text(buf+2634, 80);
+  mphinfo[18]  = text(buf+2714, 80);
+  mphinfo[19]  = text(buf+2794, 80);
+  mphinfo[20]  = text(buf+2874, 80);
+  mphinfo[21]  = text(buf+2954, 80);
+  mphinfo[22]  = text(buf+3034, 80);
+  mphinfo[23]  = text(buf+3114, 80);
+  mphinfo[24]  = text(buf+3194, 80);
+  mphinfo[25]  = text(buf+3274, 80);
+  mphinfo[26]  = text(buf+3354, 80);
+  mphinfo[27]  = text(buf+3434, 80);
+  mphinfo[28]  = text(buf+3514, 80);
+  mphinfo[29]  = text(buf+3594, 80);
+  mphinfo[30]  = text(buf+3674, 80);
+  mphinfo[31]  = text(buf+3754, 80);
+  mphinfo[32]  = text(buf+3834, 80);
+  mphinfo[33]  = text(buf+3914, 80);
+  mphinfo[34]  = text(buf+3994, 80);
+  mphinfo[35]  = text(buf+4074, 80);
+  mphinfo[36]  = text(buf+4154, 80);
+  mphinfo[37]  = text(buf+4234, 80);
+  mphinfo[38]  = text(buf+4314, 80);
+  mphinfo[39]  = text(buf+4394, 80);
+  mphinfo[40]  = text(buf+4474, 80);
+  mphinfo[41]  = text(buf+4554, 80);
+  mphinfo[42]  = text(buf+4634, 80);
+  mphinfo[43]  = text(buf+4714, 80);
+  mphinfo[44]  = text(buf+4794, 80);
+  mphinfo[45]  = text(buf+4874, 80);
+  mphinfo[46]  = text(buf+4954, 80);
+  mphinfo[47]  = text(buf+5034, 80);
   return;
 }
 
+int U_MARF_Header::number(int line) const
+{
+  long n;
+  if (sscanf(mphinfo[line].c_str( ), "%*s : %ld", &n) != 1 ||
+      n < 0 || n > INT_MAX)
+    throw std::runtime_error("Native file header: no number in \""
+                             + mphinfo[line] + "\"");
+  return n;
+}
+
 void MSG_native_header::read( std::ifstream &in )
 {
   unsigned char ubuf[mph_sph_header.mph_len];
diff --git a/msat/msg-native/MSG_native_header.h b/msat/msg-native/MSG_native_header.h
index db6dc14..9b0ae11 100644
--- a/msat/msg-native/MSG_native_header.h
+++ b/msat/msg-native/MSG_native_header.h
@@ -37,6 +37,8 @@ class U_MARF_Header {
     const static unsigned int mph_lines = 48;
     void read_from(const unsigned char *buf);
     std::string mphinfo[mph_lines];
+    // The count in the text of this number
+    int number(int line) const;
 };
 
 class MSG_native_header {
-- 
2.43.0


From b8b5578c338505f483ba80da4c95ad57932860d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 023/105] fix: images of native files were written past their
 size, or left partly uninitialised, when lines differ from what is announced

---
 msat/msg-native/MSG_native.cpp      | 37 +++++++++++++++--------------
 msat/msg-native/MSG_native_line.cpp |  7 +++---
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 8bff9ba..642d1e4 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <cstdio>
@@ -159,7 +160,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_native &m )
     std::list <MSG_native_line>::iterator p = m.line[ic].begin( );
     while (p != m.line[ic].end( ))
     {
-      std::cout << *p;
+      os << *p;
       p ++;
     }
   }
@@ -180,15 +181,13 @@ bool MSG_native::pgmdump(int ic, char *filename)
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
   os << "1024" << std::endl;
 
-  unsigned short *s = 0;
-  long ns;
-
-  std::list <MSG_native_line>::iterator p = line[ic].begin( );
-  while (p != line[ic].end( ))
+  // Samples are written most significant byte first
+  unsigned short *s = data(ic);
+  size_t size = (size_t) numberlines[ic] * numbercolumns[ic];
+  for (size_t i = 0; i < size; i ++)
   {
-    p->data.to_sample(&s, &ns);
-    os.write((char *) s, ns*sizeof(short));
-    p ++;
+    os.put(s[i] >> 8);
+    os.put(s[i] & 255);
   }
   os.close( );
 
@@ -214,21 +213,23 @@ unsigned short *MSG_native::data(int channel)
   if (channel < 0 || channel >= SEVIRI_CHANNELS) return 0;
   if (!selected_channel[channel]) return 0;
 
-  long size = numberlines[channel]*numbercolumns[channel];
-  long px = numbercolumns[channel];
+  // Lines can hold more samples than there are columns, to fill whole bytes,
+  // or less: what is not in the file is left black
+  size_t size = (size_t) numberlines[channel] * numbercolumns[channel];
+  size_t px = numbercolumns[channel];
 
-  unsigned short *s = new unsigned short[size];
-  unsigned short *sp;
-  long ns;
+  unsigned short *s = new unsigned short[size]( );
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
-  int count = 0;
-  while (p != line[channel].end( ))
+  for (int count = 0; count < numberlines[channel]; count ++)
   {
-    sp = s+count*px;
+    if (p == line[channel].end( )) break;
+    unsigned short *sp = 0;
+    long ns;
     p->data.to_sample(&sp, &ns);
+    std::copy(sp, sp + std::min((size_t) ns, px), s + count * px);
+    delete [ ] sp;
     p ++;
-    count ++;
   }
   return s;
 }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 2ceb7d1..116bbfd 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -237,10 +237,11 @@ std::ostream& operator<< ( std::ostream& os, MSG_native_line &l )
   long ns;
   unsigned short *p = 0;
   l.data.to_sample(&p, &ns);
-  std::cout << "Got " << ns << " samples from channel "
-            << (short) l.header.ChannelId
-            << ", line count " << l.header.LineNumberInGrid << std::endl;
+  os << "Got " << ns << " samples from channel "
+     << (short) l.header.ChannelId
+     << ", line count " << l.header.LineNumberInGrid << std::endl;
   for (int i = 0; i < ns; i ++)
     os << p[i] << std::endl;
+  delete [ ] p;
   return os;
 }
-- 
2.43.0


From 84afac7ba0a32f04ffdc9c92f1d867e1747245c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 024/105] fix: the tools for native files ended in a crash on
 unreadable files and missing channels

---
 tools/msg-native/native2Image.cpp | 18 ++++++++++++++++--
 tools/msg-native/nativedump.cpp   |  8 +++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 0c0b799..d834bd0 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <exception>
 #include <limits.h>
 #include <msat/msg-native/MSG_native.h>
 
@@ -73,11 +74,24 @@ int main(int argc, char **argv)
     return -1;
   }
 
-  native.read( );
+  try {
+    native.read( );
+  } catch (std::exception &e) {
+    std::cerr << "Exit: " << argv[1] << ": " << e.what( ) << std::endl;
+    return -1;
+  }
+
+  unsigned short *pixels = native.data(ichn);
+  if (!pixels)
+  {
+    std::cerr << "Exit: channel " << argv[2] << " is not in the file."
+              << std::endl;
+    return -1;
+  }
 
   Magick::Image *image = new Magick::Image(native.pixels(ichn),
                          native.lines(ichn), "I", Magick::ShortPixel,
-                         native.data(ichn)); 
+                         pixels);
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
 
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 6f5f621..1b1b20d 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //---------------------------------------------------------------------------
+#include <exception>
 #include <iostream>
 #include <msat/msg-native/MSG_native.h>
 
@@ -31,7 +32,12 @@ int main(int argc, char **argv)
   if (argc < 2) return 1;
   if (! native.open(argv[1])) return 1;
 
-  native.read( );
+  try {
+    native.read( );
+  } catch (std::exception &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
 
   std::cout << native;
 
-- 
2.43.0


From 366a3dacb702f371e49c71ed15e6bcdc200567f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 025/105] fix: texts of several lines in a native header broke
 PGM files

---
 msat/msg-native/MSG_native.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 642d1e4..8cc59ff 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -24,6 +24,7 @@
 #include <algorithm>
 #include <iostream>
 #include <fstream>
+#include <sstream>
 #include <cstdio>
 #include <cstring>
 #include <stdexcept>
@@ -177,7 +178,13 @@ bool MSG_native::pgmdump(int ic, char *filename)
 
   os << "P5" << std::endl;
   for (int i = 0; i < (int) header.mph_sph_header.mph_lines; i ++)
-    os << "# " << header.mph_sph_header.mphinfo[i];
+  {
+    // every line of the text is a comment
+    std::istringstream info(header.mph_sph_header.mphinfo[i]);
+    std::string infoline;
+    while (std::getline(info, infoline))
+      os << "# " << infoline << std::endl;
+  }
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
   os << "1024" << std::endl;
 
-- 
2.43.0


From 2fdb8431d921d557a045ec62b6aa109b533be4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 026/105] fix: a native line that could not be read whole was
 kept, with a size and no data

---
 msat/msg-native/MSG_native.cpp      |  5 +++--
 msat/msg-native/MSG_native_line.cpp | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 8cc59ff..a055674 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -114,6 +114,7 @@ void MSG_native::read( )
   long nlines = header.mph_sph_header.number(44);
   long ncols = header.mph_sph_header.number(45);
 
+  MSG_native_line aline;
   for (int il = 0; il < nlines; il ++)
   {
     for (int ic = 0; ic < SEVIRI_CHANNELS; ic ++)
@@ -122,8 +123,8 @@ void MSG_native::read( )
       int npackets = (ic == HRV_CHANNEL) ? 3 : 1;
       for (int ip = 0; ip < npackets; ip ++)
       {
-        line[ic].push_back(MSG_native_line( ));
-        line[ic].back( ).read(in);
+        aline.read(in);
+        line[ic].push_back(aline);
       }
     }
   }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 116bbfd..dc4dad4 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -23,6 +23,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <memory>
 #include <stdexcept>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
@@ -213,21 +214,22 @@ void MSG_native_line::read( std::ifstream &in )
   {
     throw std::runtime_error("Read error from Native file: Packet Size.");
   }
-  delete [ ] data.data_10bit;
-  data.data_10bit = 0;
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  data.data_10bit = new unsigned char[data.datasize];
+  size_t size = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
+  std::unique_ptr<unsigned char[]> buf(new unsigned char[size]);
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
     throw std::runtime_error("Read error from Native file: Line Header.");
   }
   header.read_from(lhbuf);
-  in.read((char *) data.data_10bit, data.datasize);
+  in.read((char *) buf.get( ), size);
   if (in.fail( ))
   {
     throw std::runtime_error("Read error from Native file: Line Data.");
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = buf.release( );
+  data.datasize = size;
   return;
 }
 
-- 
2.43.0


From e44ea0cb11bbb09c7a421f47232bf442c41ce251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 027/105] fix: OpenMTP-IDS errors threw the text of a string
 already destroyed

---
 msat/omtp-ids/OpenMTP-IDS.cc | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..c07f4b3 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -41,6 +41,15 @@ using namespace omtp_ids;
 
 // **************************** PRIVATE    *****************************
 
+// the text of an exception has to outlive the function that throws it
+static const char*
+error_text(const char* what, const char* filename, const char* why = "")
+{
+	static std::string err;
+	err = std::string(what) + filename + why;
+	return err.c_str();
+}
+
 // **************************** PROTECTED  *****************************
 
 // **************************** PUBLIC     *****************************
@@ -99,20 +108,13 @@ OpenMTP_IDS::read(const char* filename)
 {
 	std::ifstream is(filename);
 	if (!is) {
-		std::string err;
-		err += "could not open ";
-		err += filename;
-		err += " for reading";
-		throw err.c_str();
+		throw error_text("could not open ", filename, " for reading");
 	}
 
 	is >> *this;
 
 	if (!is.good()) {
-		std::string err;
-		err += "error while reading ";
-		err += filename;
-		throw err.c_str();
+		throw error_text("error while reading ", filename);
 	}
 
 	is.close();
@@ -125,20 +127,13 @@ OpenMTP_IDS::write(const char* filename)
 {
 	std::ofstream os(filename);
 	if (!os) {
-		std::string err;
-		err += "could not open ";
-		err += filename;
-		err += " for writing";
-		throw err.c_str();
+		throw error_text("could not open ", filename, " for writing");
 	}
 
 	os << *this;
 
 	if (!os.good()) {
-		std::string err;
-		err += "error while writing ";
-		err += filename;
-		throw err.c_str();
+		throw error_text("error while writing ", filename);
 	}
 
 	os.close();
-- 
2.43.0


From b7b3a01d9ab79fda7fb4d9397888934c4a9dc813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 028/105] fix: OpenMTP-IDS headers counting no records, or
 records that are not there

---
 msat/omtp-ids/OpenMTP-IDS.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index c07f4b3..01688b6 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -62,6 +62,12 @@ std::ostream&
 operator<<(std::ostream& os,
 	   const OpenMTP_IDS& openmtp_ids)
 {
+	// the file header is the first record
+	if (openmtp_ids.m_fileheader.no_records() < 1 ||
+	    openmtp_ids.m_fileheader.no_records() - 1u > openmtp_ids.m_record.size()) {
+		throw "the file header counts records that are not there\n";
+	}
+
 	os << openmtp_ids.m_fileheader;
 
 	// the first record was just written..
@@ -86,6 +92,11 @@ operator>>(std::istream& is,
 		throw "failure while reading file header\n";
 	}
 
+	// the file header is the first record
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw "the file header does not count itself\n";
+	}
+
 	// the first record was just read..
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
-- 
2.43.0


From aeee5df39740639cf8348500d6abe41313f61dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 029/105] fix: all the scan lines of an OpenMTP-IDS image
 include the last

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 01688b6..1ab9023 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -181,7 +181,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From 91694b3adee9ca842a216351543c8e2b44edcc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 030/105] fix: setting a shorter satellite name kept the end of
 the previous one

---
 msat/omtp-ids/FileHeader.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/msat/omtp-ids/FileHeader.cc b/msat/omtp-ids/FileHeader.cc
index 85966d4..8ba2353 100644
--- a/msat/omtp-ids/FileHeader.cc
+++ b/msat/omtp-ids/FileHeader.cc
@@ -256,10 +256,6 @@ FileHeader::fortran(const char* fortran)
 void
 FileHeader::satellite(const char* satellite)
 {
-	const int len = strlen(satellite);
-	const int copy_len = (len <= SATELLITE_LEN)
-		? len
-		: SATELLITE_LEN;
-
-	memcpy(m_satellite, satellite, copy_len);
+	// a shorter name must not keep the end of the previous one
+	strncpy(m_satellite, satellite, SATELLITE_LEN);
 }
-- 
2.43.0


From 37aac246acc0f21a45caad9debbcfa7b90177165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 031/105] fix: OpenMTP_IDS::write reported success when the
 last bytes could not be written

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 1ab9023..7a6d94e 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -142,12 +142,12 @@ OpenMTP_IDS::write(const char* filename)
 	}
 
 	os << *this;
+	os.close();
 
 	if (!os.good()) {
 		throw error_text("error while writing ", filename);
 	}
 
-	os.close();
 	return true;
 }
 
-- 
2.43.0


From d6a89bf0a42d6c46de3638ab4300713bfe080cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 032/105] fix: OpenMTP-IDS_to_pgm failed exactly when the last
 channel was written

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 65be161..53fa0c5 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -103,6 +103,9 @@ write_pgm(const char* filename,
 		}
 	}
 	os.close();
+	if (!os.good()) {
+		return false;
+	}
 	std::cout << "wrote " << filename << std::endl;
 	return true;
 }
@@ -150,11 +153,11 @@ openmtp_ids_to_pgm(const OpenMTP_IDS& omtp_ids)
 
 	bool ret = false;
 
-	ret = write_channel_pgm(fh.vis_id(), omtp_ids);
-	ret = write_channel_pgm(fh.ir_id(),  omtp_ids);
-	ret = write_channel_pgm(fh.wv_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.vis_id(), omtp_ids);
+	ret |= write_channel_pgm(fh.ir_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.wv_id(),  omtp_ids);
 
-	return (! ret);
+	return ret;
 }
 
 // EXTERNAL REFERENCES
-- 
2.43.0


From f19d58471eb5bf6ce0682f1130cd8b8603d38ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 033/105] fix: OpenMTP-IDS_sector crashed on images smaller
 than the sector

---
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 8bfc48b..ba5ae2d 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -54,9 +54,9 @@ static const unsigned PIXEL_1 = (1604 / 2);
 static int
 record_lines(const int lines, const int pixels)
 {
-	return static_cast<int>
+	return std::max(1, static_cast<int>
 		(rint(sqrt((8 * lines)
-			   / static_cast<double>(pixels))));
+			   / static_cast<double>(pixels)))));
 }
 
 static int
@@ -126,6 +126,15 @@ sector(const OpenMTP_IDS& omtp_ids)
 {
 	std::vector<ScanLine> lines = omtp_ids.scanline(LINE_0, LINE_1);
 
+	if (lines.empty()) {
+		throw "the image does not reach the sector";
+	}
+	for (const ScanLine& line : lines) {
+		if (line.linepixel().size() < PIXEL_1) {
+			throw "a line does not reach the end of the sector";
+		}
+	}
+
 	for_each(lines.begin(), lines.end(), sector_line);
 	return repack(lines);
 }
@@ -171,12 +180,12 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
-		return EXIT_FAILURE;
-	}
 
-	if (!openmtp_ids_sector(omtp_ids)) {
+		if (!openmtp_ids_sector(omtp_ids)) {
+			return EXIT_FAILURE;
+		}
+	} catch (const char* err) {
+		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 14f3cf4756fafdaf87304e64e3c214f7991fc0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 034/105] fix: the size cap of msat images outlived the file it
 was computed for

---
 tools/msat.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9f3ab6d..bc3b7c1 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -336,6 +336,11 @@ struct Msat
 
     void scale_if_needed(GDALDataset& ds)
     {
+        if (maxx == 0 && maxy == 0) return;
+
+        // The size chosen for a previous file does not apply to this one
+        translate.pszOXSize = translate.pszOYSize = NULL;
+
         // Scale down image to fit in maxx x maxy
         size_t sx = ds.GetRasterXSize();
         size_t sy = ds.GetRasterYSize();
@@ -344,14 +349,16 @@ struct Msat
         if (maxx != 0 && tx > maxx)
         {
                 ty = ty * maxx / tx;
+                if (ty == 0) ty = 1;
                 tx = maxx;
         }
         if (maxy != 0 && ty > maxy)
         {
                 tx = tx * maxy / ty;
+                if (tx == 0) tx = 1;
                 ty = maxy;
         }
-        if (tx != sx && ty != sy)
+        if (tx != sx || ty != sy)
         {
             cerr << "Note: image scaled down to " << tx << "x" << ty << " to prevent excessive memory usage." << endl;
             cerr << "      you can set one of --area, --Area, --around, or --resize to prevent this." << endl;
-- 
2.43.0


From 0cccdcda43a6f122f16c251ad0dbc8719c5e2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 035/105] fix: msat --around took its degrees as projected
 coordinates

---
 tools/msat.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index bc3b7c1..5dead6d 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -460,10 +460,11 @@ void Msat::parse_cmdline(int argc, char* argv[])
                                     do_help(argv[0], cerr);
                                     exit(1);
                             }
-                            translate.dfLRY = lat - h/2;
-                            translate.dfULY = lat + h/2;
-                            translate.dfULX = lon - w/2;
-                            translate.dfLRX = lon + w/2;
+                            // Same as --Area
+                            this->lat[0] = lat - h/2;
+                            this->lat[1] = lat + h/2;
+                            this->lon[0] = lon - w/2;
+                            this->lon[1] = lon + w/2;
                             has_size = true;
                             break;
                     }
-- 
2.43.0


From 2fd1dc1ae0e750d6567cb55329a04a9cb434b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 036/105] fix: msat --Area inside one pixel gave the whole
 image

---
 tools/msat.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 5dead6d..bc35efc 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -12,6 +12,7 @@
 #if 0
 #include <msat/Progress.h>
 #endif
+#include <algorithm>
 #include <stdexcept>
 #include <memory>
 #include <string>
@@ -665,8 +666,10 @@ int Msat::main()
 
                     translate.anSrcWin[0] = xmin;
                     translate.anSrcWin[1] = ymin;
-                    translate.anSrcWin[2] = xmax - xmin;
-                    translate.anSrcWin[3] = ymax - ymin;
+                    // An area smaller than a pixel is that pixel: an empty
+                    // window would mean the whole image
+                    translate.anSrcWin[2] = max(xmax - xmin, 1);
+                    translate.anSrcWin[3] = max(ymax - ymin, 1);
             }
 
             scale_if_needed(*dataset);
-- 
2.43.0


From 64aa58b2cd18fa3f4528fde20cec9b5195f03e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 037/105] fix: msat crashed when an area, a band or a file
 could not be had

---
 tools/image.cpp |  2 ++
 tools/msat.cpp  | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/tools/image.cpp b/tools/image.cpp
index 4a0e0b9..2dbb1f1 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -157,6 +157,8 @@ bool export_image(GDALRasterBand* band, const std::string& fileName, Stretch& s)
 
     unique_ptr<Magick::Image> image = imageToMagick(*band, s);
 
+    if (image.get() == 0) return false;
+
     // p.activity("Writing image to file");
     image->write(fileName);
     return true;
diff --git a/tools/msat.cpp b/tools/msat.cpp
index bc35efc..343e19c 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -676,10 +676,20 @@ int Msat::main()
 
             GDALDataset* vds = translate.translate(dataset.get());
             //translate.dump(cerr);
+            if (vds == NULL)
+            {
+                    cerr << CPLGetLastErrorMsg() << endl;
+                    return 1;
+            }
 
             if (!mdtemplate.empty())
             {
                     unique_ptr<GDALDataset> mdds((GDALDataset*)GDALOpen(mdtemplate.c_str(), GA_ReadOnly));
+                    if (mdds.get() == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
 
                     // Copy metadata from mdds to vds
                     vds->SetDescription(mdds->GetDescription());
-- 
2.43.0


From 876c06276b15d09022665388adb7bd45ae721458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 038/105] fix: msat --copymd overwrote the file the metadata
 were taken from, or amended its input

---
 tools/msat.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 343e19c..6d103d0 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -691,8 +691,20 @@ int Msat::main()
                             return 1;
                     }
 
-                    // Copy metadata from mdds to vds
-                    vds->SetDescription(mdds->GetDescription());
+                    // The metadata are for the output, not for the input file
+                    if (vds == dataset.get())
+                    {
+                            vds = (GDALDataset*)GDALCreateCopy(GDALGetDriverByName("VRT"), "", vds,
+                                            FALSE, NULL, NULL, NULL);
+                            if (vds == NULL)
+                            {
+                                    cerr << CPLGetLastErrorMsg() << endl;
+                                    return 1;
+                            }
+                    }
+
+                    // Copy metadata from mdds to vds. Not the description: it
+                    // is the name of the file that vds would be saved to
                     vds->SetMetadata(mdds->GetMetadata());
 
                     // Copy raster band metadata from mdds to vds
-- 
2.43.0


From 5b75072d57fa751b0e567310d3fd71f06ee6c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 039/105] fix: the gray scale of msat images took unset missing
 values and wrapped around outside the pixel type

---
 tools/image.cpp | 37 ++++++++++++++++++++++---------------
 tools/image.h   |  4 ++--
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 2dbb1f1..3be3312 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -1,15 +1,17 @@
 #include "msat/gdal/clean_gdal_priv.h"
 #include "image.h"
+#include <cmath>
 #include <cstdint>
 #include "config.h"
 #include <Magick++.h>
+#include <type_traits>
 
 using namespace std;
 
 namespace msat {
 
 template<typename T>
-void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax)
+void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax)
 {
   if (!compute)
   {
@@ -20,18 +22,23 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
-  T missing = (T)band.GetNoDataValue();
+  int has_missing = FALSE;
+  double missing = band.GetNoDataValue(&has_missing);
+  // Floating point data are read in single precision
+  if (!std::is_integral<T>::value) missing = (float)missing;
+  bool found = false;
 
   // Compute min and max values
-  vmin = missing;
-  vmax = missing;
+  vmin = vmax = 0;
   for (size_t i = 0; i < sx*sy; ++i)
   {
-    if (vals[i] == missing) continue;
-    if (vmin == missing)
+    if (has_missing && vals[i] == missing) continue;
+    if (std::isnan((double)vals[i])) continue;
+    if (!found)
     {
       // First time we find a good value, init min and max with it
       vmin = vmax = vals[i];
+      found = true;
       continue;
     }
     if (vals[i] < vmin) vmin = vals[i];
@@ -40,7 +47,7 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 }
 
 template<typename T>
-uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
+uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax)
 {
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
@@ -48,13 +55,13 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
   if (vmax == vmin)
   {
       for (size_t i = 0; i < sx * sy; ++i)
-          res8[i] = vmin;
+          res8[i] = vmin < 0 ? 0 : vmin > 255 ? 255 : vmin;
   }
   else
   {
       for (size_t i = 0; i < sx * sy; ++i)
       {
-        if (vals[i] < vmin)
+        if (!(vals[i] >= vmin))
           res8[i] = 0;
         else if (vals[i] > vmax)
           res8[i] = 255;
@@ -85,8 +92,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint8_t vmin;
-            uint8_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -106,8 +113,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint16_t vmin;
-            uint16_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -127,8 +134,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            float vmin = 0;
-            float vmax = 0;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
diff --git a/tools/image.h b/tools/image.h
index b017af3..7e4b942 100644
--- a/tools/image.h
+++ b/tools/image.h
@@ -39,10 +39,10 @@ struct Stretch
     Stretch() : compute(true) {}
 
     template<typename T>
-    void compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax);
+    void compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax);
 
     template<typename T>
-    uint8_t* rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax);
+    uint8_t* rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax);
 };
 
 /// Export data from an ImageData to an image file
-- 
2.43.0


From f73aa63cc99b4618ec89a023f4a315e2013692d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 040/105] fix: crops and resamplings kept the pixel statistics
 of the whole image

---
 msat/gdal/gdaltranslate.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index ab43f6a..91cb308 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -47,6 +47,23 @@ CPL_CVSID("$Id: gdal_translate.cpp 15640 2008-10-29 20:19:56Z rouault $");
 static void AttachMetadata( GDALDatasetH, char ** );
 // static int bSubCall = FALSE;
 
+/* Forget the pixel statistics found in the metadata of a band */
+static void DropStatistics( GDALRasterBand *poBand )
+{
+    char **papszMD = CSLDuplicate( poBand->GetMetadata() );
+    int    i = 0;
+
+    while( papszMD != NULL && papszMD[i] != NULL )
+    {
+        if( EQUALN(papszMD[i], "STATISTICS_", 11) )
+            papszMD = CSLRemoveStrings( papszMD, i, 1, NULL );
+        else
+            ++i;
+    }
+    poBand->SetMetadata( papszMD );
+    CSLDestroy( papszMD );
+}
+
 /* An output size: in pixels, or as a percentage of the source window */
 static int parseSize( const char *pszSize, int nSrcSize )
 {
@@ -564,6 +581,13 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /*      copy over some other information of interest.                   */
 /* -------------------------------------------------------------------- */
             poVRTBand->CopyCommonInfoFrom( poSrcBand );
+
+            /* The statistics of the source are those of its own pixels */
+            if( anSrcWin[0] != 0 || anSrcWin[1] != 0
+                || anSrcWin[2] != nRasterXSize || anSrcWin[3] != nRasterYSize
+                || nOXSize != nRasterXSize || nOYSize != nRasterYSize
+                || bScale || eBandType != poSrcBand->GetRasterDataType() )
+                DropStatistics( poVRTBand );
         }
 
 /* -------------------------------------------------------------------- */
-- 
2.43.0


From 776784afb5c0e6c758d7f74bf99e90daeda021fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 041/105] fix: msat --copymd gave the output the pixel
 statistics of the template

---
 tools/msat.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 6d103d0..95b2570 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -715,7 +715,15 @@ int Msat::main()
                             {
                                     GDALRasterBand* vr = vds->GetRasterBand(i);
                                     vr->SetDescription(mdr->GetDescription());
-                                    vr->SetMetadata(mdr->GetMetadata());
+                                    // All but the statistics of other pixels
+                                    char** md = CSLDuplicate(mdr->GetMetadata());
+                                    for (int j = 0; md && md[j]; )
+                                            if (EQUALN(md[j], "STATISTICS_", 11))
+                                                    md = CSLRemoveStrings(md, j, 1, NULL);
+                                            else
+                                                    ++j;
+                                    vr->SetMetadata(md);
+                                    CSLDestroy(md);
                             }
                     }
             }
-- 
2.43.0


From ab8223baf64cb978356b9d03d4d555e46fb13d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 042/105] fix: --force-calibration passed off the statistics of
 the counts as those of the calibrated values

---
 msat/gdal/dataset.cpp | 20 ++++++++++++++++++++
 msat/gdal/dataset.h   |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 598e424..e209384 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -362,6 +362,26 @@ CalibratedRasterBand::CalibratedRasterBand(GDALDataset& ds, GDALRasterBand& rb,
     scale = rb.GetScale();
 }
 
+char** CalibratedRasterBand::GetMetadata(const char *pszDomain)
+{
+    if (pszDomain && *pszDomain)
+        return ProxyRasterBand::GetMetadata(pszDomain);
+
+    // The statistics of the counts are not those of the calibrated values
+    metadata.Clear();
+    for (char** i = ProxyRasterBand::GetMetadata(pszDomain); i && *i; ++i)
+        if (!EQUALN(*i, "STATISTICS_", 11))
+            metadata.AddString(*i);
+    return metadata.List();
+}
+
+const char* CalibratedRasterBand::GetMetadataItem(const char *pszName, const char *pszDomain)
+{
+    if (pszName && (!pszDomain || !*pszDomain) && EQUALN(pszName, "STATISTICS_", 11))
+        return NULL;
+    return ProxyRasterBand::GetMetadataItem(pszName, pszDomain);
+}
+
 double CalibratedRasterBand::GetMinimum(int *pbSuccess)
 {
     double res = rb.GetMinimum(pbSuccess);
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index 10eae01..5037a6d 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -173,9 +173,14 @@ struct CalibratedRasterBand : public ProxyRasterBand
 {
     double ofs;
     double scale;
+    // Metadata of the source band, except the statistics of its pixels
+    CPLStringList metadata;
 
     CalibratedRasterBand(GDALDataset& ds, GDALRasterBand& rb, int idx);
 
+    char** GetMetadata(const char *pszDomain="") override;
+    const char* GetMetadataItem(const char *pszName, const char *pszDomain="") override;
+
     double GetMinimum(int *pbSuccess=NULL) override;
     double GetMaximum(int *pbSuccess=NULL) override;
     double GetOffset(int *pbSuccess=NULL) override;
-- 
2.43.0


From da94b84681405db04cf4d80084349bf4d59981bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 043/105] fix: msat reported success when the last of its
 output could not be written

---
 tools/msat.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 95b2570..74222dd 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -761,7 +761,14 @@ int Msat::main()
                                     cerr << CPLGetLastErrorMsg() << endl;
                                     return 1;
                             }
+                            // The last pixels may be written only now
+                            CPLErrorReset();
                             GDALClose(outds);
+                            if (CPLGetLastErrorType() == CE_Failure || CPLGetLastErrorType() == CE_Fatal)
+                            {
+                                    cerr << CPLGetLastErrorMsg() << endl;
+                                    return 1;
+                            }
                             break;
                     }
 #ifdef HAVE_MAGICKPP
@@ -805,6 +812,13 @@ int Msat::main()
             if (vds != dataset.get())
                     GDALClose( (GDALDatasetH) vds );
     }
+
+    cout.flush();
+    if (!cout)
+    {
+            cerr << "Cannot write to standard output" << endl;
+            return 1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 4b74f824eebe6638ee16017f3a6dea1a491f2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 044/105] fix: xritdump crashed on segments of one value and on
 missing segments

A segment whose samples are all the same divided by zero, samples below the
least one (missing segments are zeros) indexed far outside of the characters,
the greatest sample printed a NUL, and lines longer than the full disc
overran the buffer.
---
 tools/hrit/xritdump.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index d855111..fb02778 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -48,6 +48,15 @@ static void do_help(const char* argv0, ostream& out)
             << "  --help           Print this help message" << endl;
 }
 
+// Character for a sample, in a picture of samples from min to max
+static char aachar(MSG_SAMPLE s, MSG_SAMPLE min, MSG_SAMPLE max)
+{
+        static const string aachars = " .,-:=$#";
+        if (s <= min) return aachars[0];
+        if (s >= max) return aachars[aachars.size() - 1];
+        return aachars[(s-min) * aachars.size() / (max-min)];
+}
+
 static void do_dump(const char* name)
 {
         FileAccess fa(name);
@@ -83,7 +92,6 @@ static void do_dump(const char* name)
                      << "WestColumnActual: " << da.WestColumnActual << endl;
         }
 
-        string aachars = " .,-:=$#";
         MSG_SAMPLE compmin = 0xffff, compmax = 0;
         for (size_t i = 0; i < da.segnames.size(); ++i)
         {
@@ -114,8 +122,7 @@ static void do_dump(const char* name)
                                 size_t px = x * da.columns / charx;
                                 size_t py = y * da.seglines / chary;
                                 MSG_SAMPLE s = d->image->data[py * da.columns + px];
-                                char c = aachars[(s-min) * aachars.size() / (max-min)];
-                                cout << c;
+                                cout << aachar(s, min, max);
                         }
                         cout << endl;
                 }
@@ -134,15 +141,13 @@ static void do_dump(const char* name)
         for (size_t y = 0; y < chary; ++y)
         {
                 size_t py = y * comp_sy / chary;
-                MSG_SAMPLE buf[comp_sx];
-                bzero(buf, comp_sx * sizeof(MSG_SAMPLE));
-                da.line_read(py, buf);
+                vector<MSG_SAMPLE> buf(comp_sx + da.columns, 0);
+                da.line_read(py, buf.data());
                 for (size_t x = 0; x < charx; ++x)
                 {
                         size_t px = x * comp_sx / charx;
                         MSG_SAMPLE s = buf[px];
-                        char c = aachars[(s-compmin) * aachars.size() / (compmax-compmin)];
-                        cout << c;
+                        cout << aachar(s, compmin, compmax);
                 }
                 cout << endl;
         }
-- 
2.43.0


From 8be50341adb122353155c96feae46a9927336ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 045/105] fix: xritdump did not put the HRV windows in their
 place in the composite image

---
 tools/hrit/xritdump.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index fb02778..4d765ef 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -142,7 +142,9 @@ static void do_dump(const char* name)
         {
                 size_t py = y * comp_sy / chary;
                 vector<MSG_SAMPLE> buf(comp_sx + da.columns, 0);
-                da.line_read(py, buf.data());
+                size_t start = da.line_start(py);
+                if (start < comp_sx)
+                        da.line_read(py, buf.data() + start);
                 for (size_t x = 0; x < charx; ++x)
                 {
                         size_t px = x * comp_sx / charx;
-- 
2.43.0


From e982509363e36e36fa1e07f60da9b6fe82384099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 046/105] fix: XRIT2Image crashed on damaged segments

The exceptions of truncated and foreign files were not caught, and segments
numbered outside of the plan, of other sizes or shorter than they say were
read or copied outside of their memory.
---
 tools/hrit/XRIT2Image.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6aa8588..2e3f6ce 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -178,12 +178,44 @@ int main(int argc, char *argv[ ])
                 << globbuf.gl_pathv[i+1] << std::endl;
       return 1;
     }
-    header[i].read_from(hrit);
-    msgdat[i].read_from(hrit, header[i]);
+    try {
+      header[i].read_from(hrit);
+      msgdat[i].read_from(hrit, header[i]);
+    } catch (std::exception &e) {
+      std::cerr << globbuf.gl_pathv[i+1] << ": " << e.what( ) << std::endl;
+      return 1;
+    }
     hrit.close( );
     std::cout << header[i];
   }
 
+  // All must be segments of the same image
+  for (int i = 0; i < nsegments; i ++)
+  {
+    bool ok = header[i].segment_id && header[i].image_structure;
+    if (ok && header[0].segment_id->data_field_format != MSG_NO_FORMAT)
+      ok = msgdat[i].image &&
+           header[i].segment_id->data_field_format != MSG_NO_FORMAT &&
+           header[i].segment_id->planned_end_segment_sequence_number ==
+             header[0].segment_id->planned_end_segment_sequence_number &&
+           header[i].segment_id->sequence_number >= 1 &&
+           header[i].segment_id->sequence_number <=
+             header[i].segment_id->planned_end_segment_sequence_number &&
+           header[i].image_structure->number_of_columns ==
+             header[0].image_structure->number_of_columns &&
+           header[i].image_structure->number_of_lines ==
+             header[0].image_structure->number_of_lines &&
+           msgdat[i].image->len >=
+             (size_t) header[i].image_structure->number_of_columns *
+             header[i].image_structure->number_of_lines;
+    if (!ok)
+    {
+      std::cerr << globbuf.gl_pathv[i+1]
+                << ": not a whole segment of the image" << std::endl;
+      return 1;
+    }
+  }
+
   globfree(&globbuf);
 
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
-- 
2.43.0


From 4b3825d6d7e4b610350371f0c39358c45f6ca1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 047/105] fix: native2Image wrote the image before scaling it

---
 tools/msg-native/native2Image.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index d834bd0..1c2bd6a 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -97,11 +97,10 @@ int main(int argc, char **argv)
 
   image->normalize( );
   image->rotate(180.0);
-  image->write(outname);
-
   Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
                         (int) ((float) native.lines(ichn) *gfactor));
   image->scale(geom);
+  image->write(outname);
 
   native.close( );
   return 0;
-- 
2.43.0


From ffa02963a581de0c3b4c34dfd7cfd812e5696659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 048/105] fix: XRIT2Image and native2Image aborted when the
 image could not be made or written

---
 tools/hrit/XRIT2Image.cpp         | 15 ++++++++++++---
 tools/msg-native/native2Image.cpp | 13 +++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 2e3f6ce..d93851e 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_HRIT.h>
 
@@ -257,8 +258,12 @@ int main(int argc, char *argv[ ])
     pos += npixperseg;
   }
 
-  Magick::Image *image = new Magick::Image(npix, nlin*totalsegs,
-                                     "I", Magick::ShortPixel, pixels);
+  int status = 0;
+  Magick::Image *image = NULL;
+  try {
+  if (total_size == 0) throw std::runtime_error("image without samples");
+  image = new Magick::Image(npix, nlin*totalsegs,
+                            "I", Magick::ShortPixel, pixels);
   if (normalize) image->normalize( );
   image->rotate(180.0);
   if (header[0].segment_id->spectral_channel_id < 12)
@@ -279,6 +284,10 @@ int main(int argc, char *argv[ ])
   }
 
   image->write(filename);
+  } catch (std::exception &e) {
+    std::cerr << filename << ": " << e.what( ) << std::endl;
+    status = 1;
+  }
 
   delete image;
 
@@ -286,7 +295,7 @@ int main(int argc, char *argv[ ])
   delete [ ] header;
   delete [ ] msgdat;
   delete [ ] segsindexes;
-  return 0;
+  return status;
 }
 
 void usage(char *pname)
diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 1c2bd6a..05c8d9d 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -25,6 +25,7 @@
 #include <fstream>
 #include <cstring>
 #include <exception>
+#include <stdexcept>
 #include <limits.h>
 #include <msat/msg-native/MSG_native.h>
 
@@ -89,11 +90,15 @@ int main(int argc, char **argv)
     return -1;
   }
 
+  char outname[PATH_MAX];
+  snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
+
+  try {
+  if (native.pixels(ichn) == 0 || native.lines(ichn) == 0)
+    throw std::runtime_error("image without samples");
   Magick::Image *image = new Magick::Image(native.pixels(ichn),
                          native.lines(ichn), "I", Magick::ShortPixel,
                          pixels);
-  char outname[PATH_MAX];
-  snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
 
   image->normalize( );
   image->rotate(180.0);
@@ -101,6 +106,10 @@ int main(int argc, char **argv)
                         (int) ((float) native.lines(ichn) *gfactor));
   image->scale(geom);
   image->write(outname);
+  } catch (std::exception &e) {
+    std::cerr << outname << ": " << e.what( ) << std::endl;
+    return -1;
+  }
 
   native.close( );
   return 0;
-- 
2.43.0


From 539f12f9f2e647b23deeb3f5e6cd9bc11d573606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 049/105] fix: decode_cstring read every \x escape as a zero
 byte

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..931aba9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -389,7 +389,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 87d3f5dccb4e8f98928921e2796db0514c4f6a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 050/105] fix: normpath crashed on relative paths that go above
 their start

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 931aba9..5055f0b 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From 873cc6caaa3381b0117c5b83a67f36cb5a622e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 051/105] fix: decode_url gave a zero byte for a lone percent
 sign

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 5055f0b..c89eddd 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -431,7 +431,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (str.size() - i <= 2)
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From 80029ff7680054525a08b2a472c4e230b72cb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 052/105] fix: decode_base64 read after the table for bytes
 just after the letters

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index c89eddd..859ee31 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From d3404dba38bc868c7867ab853fb1dc1c3fcd8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 053/105] fix: Split never ended with an empty separator, and
 gave empty tokens it had to skip

---
 msat/utils/string.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 859ee31..2031ffb 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -235,6 +235,9 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
+    // Nothing can be skipped
+    if (sep.empty()) return;
+
     while (end + sep.size() <= str.size())
     {
         unsigned i = 0;
@@ -267,6 +270,13 @@ Split::const_iterator& Split::const_iterator::operator++()
     /// return it
     if (end == str.size())
     {
+        /// (there is none after the last character, or if we skip them)
+        if (skip_empty || sep.empty())
+        {
+            end = std::string::npos;
+            split = nullptr;
+            return *this;
+        }
         cur = string();
         end = std::string::npos;
         return *this;
-- 
2.43.0


From 88d7ad4334ce7d1e8bb664600a8a1658e6c5cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 054/105] fix: asking the remainder of a Split of an empty
 string crashed

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 2031ffb..7f171a8 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -224,7 +224,7 @@ Split::const_iterator::~const_iterator()
 
 std::string Split::const_iterator::remainder() const
 {
-    if (end == std::string::npos)
+    if (!split || end == std::string::npos)
         return std::string();
     else
         return split->str.substr(end);
-- 
2.43.0


From 158833f567c15f3cddac8f1bf1325e26801994ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:22 +0000
Subject: [PATCH 055/105] fix: moving a sys::Path::iterator lost the directory
 it reads

---
 msat/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/sys.h b/msat/utils/sys.h
index 4289bc6..7748e9d 100644
--- a/msat/utils/sys.h
+++ b/msat/utils/sys.h
@@ -420,7 +420,7 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
             o.dir = nullptr;
             o.cur_entry = nullptr;
-- 
2.43.0


From 9e254886e8367beca1462447e79119c19609e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:30 +0000
Subject: [PATCH 056/105] fix: sys::islnk followed links, so it never found one

---
 msat/utils/sys.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index c1161a6..471702b 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -132,7 +132,14 @@ bool isfifo(const std::string& pathname)
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    struct stat st;
+    if (::lstat(pathname.c_str(), &st) == -1) {
+        if (errno == ENOENT)
+            return false;
+        else
+            throw std::system_error(errno, std::system_category(), "cannot lstat " + pathname);
+    }
+    return S_ISLNK(st.st_mode);
 }
 
 bool isreg(const std::string& pathname)
-- 
2.43.0


From 020cc2f596080a128b3539e63b8f256a245b553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:30 +0000
Subject: [PATCH 057/105] fix: where the system does not tell the type of
 directory entries, links were taken for what they lead to

---
 msat/utils/sys.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 471702b..522c969 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -773,7 +773,7 @@ bool Path::iterator::isdir() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISDIR(st.st_mode);
 }
 
@@ -787,7 +787,7 @@ bool Path::iterator::isblk() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISBLK(st.st_mode);
 }
 
@@ -801,7 +801,7 @@ bool Path::iterator::ischr() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISCHR(st.st_mode);
 }
 
@@ -815,7 +815,7 @@ bool Path::iterator::isfifo() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISFIFO(st.st_mode);
 }
 
@@ -828,7 +828,7 @@ bool Path::iterator::islnk() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISLNK(st.st_mode);
 }
 
@@ -841,7 +841,7 @@ bool Path::iterator::isreg() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISREG(st.st_mode);
 }
 
@@ -854,7 +854,7 @@ bool Path::iterator::issock() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISSOCK(st.st_mode);
 }
 
-- 
2.43.0


From 4f0a9647a2fba8c0c7d1f553099a17604c69992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:50 +0000
Subject: [PATCH 058/105] fix: rename_ifexists took a missing destination
 directory for a missing source

---
 msat/utils/sys.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 522c969..9909cfb 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1193,8 +1193,11 @@ bool rename_ifexists(const std::filesystem::path& src, const std::filesystem::pa
 {
     if (::rename(src.c_str(), dst.c_str()) != 0)
     {
-        if (errno != ENOENT)
-            throw std::system_error(errno, std::system_category(), "cannot rename "s + src.native() + " to " + dst.native());
+        int err = errno;
+        // ENOENT can also be about the directory of dst
+        struct stat st;
+        if (err != ENOENT || ::lstat(src.c_str(), &st) == 0)
+            throw std::system_error(err, std::system_category(), "cannot rename "s + src.native() + " to " + dst.native());
         else
             return false;
     }
-- 
2.43.0


From e144b60df873214656e54eaf6be705b88d2b245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:50 +0000
Subject: [PATCH 059/105] fix: a Tempfile that could not be removed ended the
 process from its destructor

---
 msat/utils/sys.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 9909cfb..d5d6862 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1001,7 +1001,10 @@ Tempfile::Tempfile(const char* prefix) : sys::File(sys::File::mkstemp(prefix)) {
 Tempfile::~Tempfile()
 {
     if (m_unlink_on_exit)
-        std::filesystem::remove(path_);
+    {
+        std::error_code ec;
+        std::filesystem::remove(path_, ec);
+    }
 }
 
 void Tempfile::unlink_on_exit(bool val)
-- 
2.43.0


From 345556a4367245ad72a812f96523c44561f6a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:50 +0000
Subject: [PATCH 060/105] fix: write_file_atomically left its temporary file
 behind when it failed

---
 msat/utils/sys.cc | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index d5d6862..78026da 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1125,18 +1125,25 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 {
     File out = File::mkstemp(file);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
-
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
-
-    out.write_all_or_retry(data, size);
-    out.close();
-
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    try
+    {
+        // Read the umask
+        mode_t mask = umask(0777);
+        umask(mask);
+
+        // Set the file permissions, honoring umask
+        out.fchmod(mode & ~mask);
+
+        out.write_all_or_retry(data, size);
+        out.close();
+
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    } catch (...) {
+        // Do not leave the temporary file behind
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 43a79eeeb98269f7f482f7da4917462653cb4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:50 +0000
Subject: [PATCH 061/105] fix: an MMap moved from or unmapped could not be
 assigned to

---
 msat/utils/sys.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 78026da..cd41b25 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -266,6 +266,7 @@ MMap::~MMap()
 
 void MMap::munmap()
 {
+    if (addr == MAP_FAILED) return;
     if (::munmap(addr, length) == -1)
         throw std::system_error(errno, std::system_category(), "cannot unmap memory");
     addr = MAP_FAILED;
-- 
2.43.0


From 232005c75eee435e2cf2640bc89201107d887fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:13 +0000
Subject: [PATCH 062/105] fix: file times that could not be restored ended the
 process from the destructor of PreserveFileTimes

---
 msat/utils/sys.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index cd41b25..9991016 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -510,7 +510,10 @@ PreserveFileTimes::PreserveFileTimes(FileDescriptor fd_)
 
 PreserveFileTimes::~PreserveFileTimes()
 {
-    fd.futimens(ts);
+    try {
+        fd.futimens(ts);
+    } catch (...) {
+    }
 }
 
 
-- 
2.43.0


From f6c0efbc9a45495f99a5f2a075df88c87ee94027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 063/105] fix: errors in HRI files ended the process, as throw;
 was used with nothing to rethrow

---
 msat/hri/HRI.cpp                         | 17 +++++++++--------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..9d84dcb 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -30,6 +30,7 @@
 #include <fstream>
 #include <cstring>
 #include <ctime>
+#include <stdexcept>
 #include <msat/hri/HRI.h>
 
 Hri::Hri( char *hri_filename, bool IS_TECNAVIA )
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("Cannot open input hri file");
   }
 
   if (IS_TECNAVIA)
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("Invalid format or non disseminated image");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("Invalid HRI format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("Read failed");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("Read failed");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("Invalid HRI format");
   }
   return linebuff;
 }
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("Sync error in input hri file");
   }
   return;
 }
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("Sync error in input hri file");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..d18e785 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 #include <string>
+#include <stdexcept>
 #include <iostream>
 
 typedef struct {
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("Unknown or unsupported format in HRI_geolocation");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..5973ca6 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <cstring>
 #include <cmath>
+#include <stdexcept>
 
 HRI_image::HRI_image( )
 {
@@ -124,7 +125,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("Undefined band for A Format image in HRI_Image");
 	  break;
       }
       break;
@@ -173,7 +174,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("Undefined band for B Format image in HRI_Image");
 	  break;
       }
       break;
@@ -222,13 +223,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("Undefined band for X Format image in HRI_Image");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("Undefined format in HRI_image");
   }
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
@@ -244,14 +245,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("Invalid line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -266,14 +267,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("Invalid half line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -290,7 +291,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -314,14 +315,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::runtime_error("Out of range pixel number");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..507a02b 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -29,6 +29,7 @@
 #include <msat/hri/HRI_subframe_identification.h>
 #include <cstring>
 #include <ctime>
+#include <stdexcept>
 #include <cstdio>
 
 HRI_subframe_identification::HRI_subframe_identification( char *hsi )
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("Unknown satellite id");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("Unknown satellite id");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..465f3d1 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_subframe_label.h>
 #include <string>
+#include <stdexcept>
 
 HRI_subframe_label::HRI_subframe_label( char hsl[24] )
 {
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("Unknown format code in HRI read");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From 752f7d767eb356227d9dd23ac3a96c48f9440c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 064/105] fix: IBM floating point numbers of HRI headers were
 read with 64 bit words past the end of their bytes

---
 msat/hri/HRI_machine.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..1a14665 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_machine.h>
 #include <cstdint>
+#include <cstring>
 
 HRI_machine::HRI_machine()
 {
@@ -141,9 +142,9 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
+static inline void leftshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -159,9 +160,9 @@ static inline void leftshift(unsigned long *pnt, int n)
    return;
 }
 
-static inline void rightshift(unsigned long *pnt, int n)
+static inline void rightshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -183,26 +184,29 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
         uint32_t i;
         float f;
     } uval;
-    unsigned long *pnt, sign, fraction;
+    uint32_t pnt[1], sign, fraction;
     long exponent;
     unsigned char swp[4];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     memcpy(pnt, buff, 4);
    else
    {
      swp[3] = buff[0];
      swp[2] = buff[1];
      swp[1] = buff[2];
      swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
+     memcpy(pnt, swp, 4);
    }
 
    if ((pnt[0] & 0x7FFFFFFF) == 0)
-      return *((float *) pnt);
+   {
+      uval.i = pnt[0];
+      return uval.f;
+   }
 
    sign     =   pnt[0] & 0x80000000;
-   exponent = ((pnt[0] & 0x7F000000) >> 24) - 64;
+   exponent = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction =   pnt[0] & 0x00FFFFFF;
 
    if (exponent >= 0)
@@ -234,7 +238,7 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
     int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
+    uint32_t tmp, sign, fraction[2], pnt[2];
     union {
         uint32_t i[2];
         double d;
@@ -243,7 +247,7 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
     unsigned char swp[8];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     memcpy(pnt, buff, 8);
    else
    {
      swp[3] = buff[0];
@@ -254,7 +258,7 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
      swp[6] = buff[5];
      swp[5] = buff[6];
      swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
+     memcpy(pnt, swp, 8);
    }
 
    if (isbig) { idxl = 0; idxh = 1; }
@@ -269,7 +273,7 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
    }
 
    sign        = pnt[0] & 0x80000000;
-   exponent    = ((pnt[0] & 0x7F000000) >> 24) - 64;
+   exponent    = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction[0] = pnt[0] & 0x00FFFFFF;
    fraction[1] = pnt[1];
 
-- 
2.43.0


From a4e8c80e9fabf55ead1d3525ce0a6e9aa80cd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 065/105] fix: IBM floating point numbers of HRI headers with a
 zero fraction were read as powers of two

---
 msat/hri/HRI_machine.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index 1a14665..3ccab2a 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -209,19 +209,22 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
    exponent = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction =   pnt[0] & 0x00FFFFFF;
 
+   if (fraction == 0)
+   {
+      uval.i = sign;
+      return uval.f;
+   }
+
    if (exponent >= 0)
       exponent <<= 2;
    else
       exponent = -((-exponent) << 2);
 
    exponent = exponent - 1;
-   if (fraction)
+   while ((fraction & 0x00800000) == 0)
    {
-      while ((fraction & 0x00800000) == 0)
-      {
-         fraction <<= 1;
-         exponent = exponent - 1;
-      }
+      fraction <<= 1;
+      exponent = exponent - 1;
    }
 
    fraction &= 0x007FFFFF;
@@ -265,10 +268,10 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
    else       { idxl = 1; idxh = 0; }
 
    tmp = pnt[0];
-   if ((tmp & 0x7FFFFFFF) == 0)
+   if ((tmp & 0x00FFFFFF) == 0 && pnt[1] == 0)
    {
-     uval.i[idxl] = pnt[0];
-     uval.i[idxh] = pnt[1];
+     uval.i[idxl] = tmp & 0x80000000;
+     uval.i[idxh] = 0;
      return uval.d;
    }
 
@@ -282,13 +285,10 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
    else
       exponent = -((-exponent) << 2);
 
-   if (fraction[0])
+   while ((fraction[0] & 0x01000000) == 0)
    {
-      while ((fraction[0] & 0x01000000) == 0)
-      {
-         leftshift(fraction, 1);
-         exponent -= 1;
-      }
+      leftshift(fraction, 1);
+      exponent -= 1;
    }
 
    rightshift(fraction, 4);
-- 
2.43.0


From 933b156bf0d15a863a634830cafb2ff726cb16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 066/105] fix: Hri::get_format returned a pointer into a string
 that was already destroyed

---
 msat/hri/HRI.cpp | 3 ++-
 msat/hri/HRI.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 9d84dcb..ea2d345 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -385,7 +385,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
 
 char * Hri::get_format( )
 {
-  return (char *) label.format_code( ).c_str( );
+  format = label.format_code( );
+  return (char *) format.c_str( );
 }
 
 struct tm *Hri::get_datetime( )
diff --git a/msat/hri/HRI.h b/msat/hri/HRI.h
index 3de761a..2886279 100644
--- a/msat/hri/HRI.h
+++ b/msat/hri/HRI.h
@@ -101,6 +101,7 @@ class Hri {
     HRI_subframe_interpretation interp;
     HRI_subframe_keyslot keys;
     HRI_geolocation geo;
+    std::string format;
 };
 
 #endif
-- 
2.43.0


From 9cb0e3a40153ed165623df5f018a5b28bb8675f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 067/105] fix: the water vapour images of HRI X formats were
 calibrated with uninitialised coefficients

---
 msat/hri/HRI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index ea2d345..918e25d 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -120,7 +120,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   }
 
   std::string format = label.format_code( );
-  calibration_coefficients coeff;
+  calibration_coefficients coeff = { 0, 0 };
 
   cout << "Format is : " << format << std::endl;
 
@@ -347,6 +347,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       for (int i = 0; i < image[0].nlines; i ++)
         image[0].put_line(get_dataline(hri, id), image[0].npixels, i); 
     }
+    coeff.mpef_absolute = interp.cal.calwv;
+    coeff.space_count   = interp.cal.wvspc;
     image[0].set_calibration(&coeff);
   }
   else if (format == "XVH")
-- 
2.43.0


From 2638c94f3330bb85520f23188e3c8f91e160d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 068/105] fix: the keys of TECNAVIA HRI files in A format were
 overwritten and never read

---
 msat/hri/HRI.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 918e25d..29b4587 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -95,7 +95,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
         std::cerr << "Read failed." << std::endl;
         return;
       }
-      memcpy(keybuff, mod_framebuff, 1440-92);
+      memcpy(keybuff+92, mod_framebuff, 1440-92);
+      keys.readfrom(keybuff);
     }
     else
     {
-- 
2.43.0


From 3842134b1c5193778ab1535634c0da41e7fa5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 069/105] fix: the maximum space count of the western part of
 HRI infrared images was read from that of the first visible channel

---
 msat/hri/HRI_subframe_interpretation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
-- 
2.43.0


From 2e765fb5f3014f1982db0f272f453c4bba5abf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 070/105] fix: the maximum space counts of the second visible
 channel of HRI files were printed one for the other

---
 msat/hri/HRI_subframe_interpretation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hri/HRI_subframe_interpretation.h b/msat/hri/HRI_subframe_interpretation.h
index 7afb3d4..43d6fcc 100644
--- a/msat/hri/HRI_subframe_interpretation.h
+++ b/msat/hri/HRI_subframe_interpretation.h
@@ -433,7 +433,7 @@ class HRI_subframe_interpretation {
          << "Max space count east V1      : "
 	 << i.imag.snmxep_v1 << std::endl
          << "Max space count east V2      : "
-	 << i.imag.snmxwp_v2 << std::endl
+	 << i.imag.snmxep_v2 << std::endl
          << "Max space count west IR      : "
 	 << i.imag.snmxwp_ir << std::endl 
          << "Max space count west WV      : "
@@ -441,7 +441,7 @@ class HRI_subframe_interpretation {
          << "Max space count west V1      : "
 	 << i.imag.snmxwp_v1 << std::endl
          << "Max space count west V2      : "
-	 << i.imag.snmxep_v2 << std::endl
+	 << i.imag.snmxwp_v2 << std::endl
 	 << "-----------------------------" << std::endl
 	 << "- Administrative Messages   -" << std::endl
 	 << "-----------------------------" << std::endl
-- 
2.43.0


From 4a60c7a831cb0cf641a29f6717e45f824a3f6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 071/105] fix: printing an HRI file whose administrative
 message fills its field read past the end of it

---
 msat/hri/HRI_subframe_interpretation.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.h b/msat/hri/HRI_subframe_interpretation.h
index 43d6fcc..072011f 100644
--- a/msat/hri/HRI_subframe_interpretation.h
+++ b/msat/hri/HRI_subframe_interpretation.h
@@ -29,6 +29,8 @@
 #ifndef __HRI_SUBFRAME_INTERPRETATION_H__
 #define __HRI_SUBFRAME_INTERPRETATION_H__
 
+#include <cstring>
+#include <string>
 #include <msat/hri/HRI_machine.h>
 #include <iostream>
 
@@ -445,7 +447,8 @@ class HRI_subframe_interpretation {
 	 << "-----------------------------" << std::endl
 	 << "- Administrative Messages   -" << std::endl
 	 << "-----------------------------" << std::endl
-	 << i.mesg.admin_message << std::endl
+	 << std::string(i.mesg.admin_message, strnlen(i.mesg.admin_message, sizeof(i.mesg.admin_message)))
+	 << std::endl
 	 << "-----------------------------" << std::endl;
       return os;
     }
-- 
2.43.0


From 3ea09e1af4299cb9e3f6a5853b52433122a9d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 072/105] fix: the date of HRI files depended on the local time
 zone

---
 msat/hri/HRI_subframe_identification.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 507a02b..1ed9bdf 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -84,7 +84,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_year = year-1900;
   tmtime.tm_mday = 1;
   tmtime.tm_hour = 12;
-  jtime = mktime(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
+  jtime = timegm(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
   tm1time = gmtime(&jtime);
   month = tm1time->tm_mon + 1;
   day   = tm1time->tm_mday;
-- 
2.43.0


From 6b312226adb5d58ae8522ed5d0d2f8b959d38841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 073/105] fix: the date of HRI files was always given as a
 Sunday

---
 msat/hri/HRI_subframe_identification.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 1ed9bdf..37f458d 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -100,6 +100,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_hour = hour;
   tmtime.tm_min  = minute;
 
+  timegm(&tmtime);
   datetime = asctime(&tmtime);
 
   column_offset = conv.i2_from_buff((const unsigned char *) hsi+20);
-- 
2.43.0


From 883e4e99cf5ceb6ccd87098032bc28cc0721ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 074/105] fix: a TECNAVIA HRI file that ended in its header was
 read without an error, as a file with no images

---
 msat/hri/HRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 29b4587..0b5eb42 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -93,7 +93,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       if (hri.fail())
       {
         std::cerr << "Read failed." << std::endl;
-        return;
+        throw std::runtime_error("Read failed");
       }
       memcpy(keybuff+92, mod_framebuff, 1440-92);
       keys.readfrom(keybuff);
-- 
2.43.0


From 2ede2cc52db9920da7ae7c4fa04e12ebc42add23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 075/105] fix: reading a second HRI file with the same object
 leaked the images of the first; an image made for a band had its state
 uninitialised

---
 msat/hri/HRI_image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index 5973ca6..53963df 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -50,6 +50,9 @@ HRI_image::HRI_image( HRI_image_satellite s,
                       HRI_image_format f,
 		      HRI_image_band b )
 {
+  data = 0;
+  aline = 0;
+  calibrated = false;
   set_format_band(s, f, b);
 }
 
@@ -231,6 +234,8 @@ void HRI_image::set_format_band( HRI_image_satellite s,
       std::cerr << "Undefined format in HRI_image" << std::endl;
       throw std::runtime_error("Undefined format in HRI_image");
   }
+  if (data)  delete [ ] data;
+  if (aline) delete [ ] aline;
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
   assert(data);
-- 
2.43.0


From 256216593457fea57d304d3ac34b5b8af2401e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 076/105] fix: looking up an empty entry in an ini dictionary
 compared it to keys that are not there

---
 msat/iniparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 9625def..fc303a7 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -339,7 +339,7 @@ static char * dictionary_get(dictionary * d, char * key, char * def)
 
     hash = dictionary_hash(key);
     for (i=0 ; i<d->size ; i++) {
-        if (d->key==NULL)
+        if (d->key[i]==NULL)
             continue ;
         /* Compare hash */
         if (hash==d->hash[i]) {
-- 
2.43.0


From bbb569cebcd290237bd971c07e42b589465b287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 077/105] fix: reading a section of an ini file as a number or
 a boolean dereferenced a null pointer

---
 msat/iniparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fc303a7..b03d333 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -755,7 +755,7 @@ int iniparser_getint(dictionary * d, char * key, int notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atoi(str);
 }
 
@@ -778,7 +778,7 @@ double iniparser_getdouble(dictionary * d, char * key, double notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atof(str);
 }
 
@@ -822,7 +822,7 @@ int iniparser_getboolean(dictionary * d, char * key, int notfound)
     int         ret ;
 
     c = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (c==INI_INVALID_KEY) return notfound ;
+    if (c==INI_INVALID_KEY || c==NULL) return notfound ;
     if (c[0]=='y' || c[0]=='Y' || c[0]=='1' || c[0]=='t' || c[0]=='T') {
         ret = 1 ;
     } else if (c[0]=='n' || c[0]=='N' || c[0]=='0' || c[0]=='f' || c[0]=='F') {
-- 
2.43.0


From ff695d887206794e68f1c04446a736dce1d55af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 078/105] fix: empty quoted values of ini files were read as
 the two quotes, but on the last line

---
 msat/iniparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index b03d333..fb1c912 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -952,10 +952,9 @@ dictionary * iniparser_new(char *ininame)
                  * sscanf cannot handle "" or '' as empty value,
                  * this is done here
                  */
+                strcpy(val, strcrop(val));
                 if (!strcmp(val, "\"\"") || !strcmp(val, "''")) {
                     val[0] = (char)0;
-                } else {
-                    strcpy(val, strcrop(val));
                 }
                 iniparser_add_entry(d, sec, key, val);
             }
-- 
2.43.0


From 1e02f2cb4d4d44b0146523650eb80c5002dc7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 079/105] fix: saving an ini dictionary lost the entries that
 are in no section, or gave them another name

---
 msat/iniparser.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fb1c912..fcd5a91 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -653,14 +653,10 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
     if (d==NULL || f==NULL) return ;
 
     nsec = iniparser_getnsec(d);
-    if (nsec<1) {
-        /* No section in file: dump all keys as they are */
-        for (i=0 ; i<d->size ; i++) {
-            if (d->key[i]==NULL)
-                continue ;
-            fprintf(f, "%s = %s\n", d->key[i], d->val[i]);
-        }
-        return ;
+    /* Keys that are in no section come before all sections */
+    for (i=0 ; i<d->size ; i++) {
+        if (d->key[i]!=NULL && d->key[i][0]==':')
+            fprintf(f, "%-30s = %s\n", d->key[i]+1, d->val[i] ? d->val[i] : "");
     }
     for (i=0 ; i<nsec ; i++) {
         secname = iniparser_getsecname(d, i) ;
-- 
2.43.0


From 246cf813e4a1ab4c524dc54960c17f26e230e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 080/105] fix: empty values, and those with comment marks or
 quotes, did not survive saving an ini dictionary

---
 msat/iniparser.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fcd5a91..ec3e54d 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -630,6 +630,17 @@ void iniparser_dump(dictionary * d, FILE * f)
 }
 
 
+/* Private: print a key and its value, quoted when it could not be read back */
+static void iniparser_dump_entry(FILE * f, char * key, char * val)
+{
+    char *  quote = "" ;
+
+    if (val==NULL) return ;
+    if (*val==0 || isspace((unsigned char)*val) || *val=='"' || *val=='\'' || strpbrk(val, ";#")!=NULL)
+        quote = strchr(val, '"')==NULL ? "\"" : "'" ;
+    fprintf(f, "%-30s = %s%s%s\n", key, quote, val, quote);
+}
+
 /*-------------------------------------------------------------------------*/
 /**
   @brief    Save a dictionary to a loadable ini file
@@ -656,7 +667,7 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
     /* Keys that are in no section come before all sections */
     for (i=0 ; i<d->size ; i++) {
         if (d->key[i]!=NULL && d->key[i][0]==':')
-            fprintf(f, "%-30s = %s\n", d->key[i]+1, d->val[i] ? d->val[i] : "");
+            iniparser_dump_entry(f, d->key[i]+1, d->val[i]);
     }
     for (i=0 ; i<nsec ; i++) {
         secname = iniparser_getsecname(d, i) ;
@@ -667,10 +678,7 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
             if (d->key[j]==NULL)
                 continue ;
             if (!strncmp(d->key[j], keym, seclen+1)) {
-                fprintf(f,
-                        "%-30s = %s\n",
-                        d->key[j]+seclen+1,
-                        d->val[j] ? d->val[j] : "");
+                iniparser_dump_entry(f, d->key[j]+seclen+1, d->val[j]);
             }
         }
     }
-- 
2.43.0


From f78c3345129967d345de3b86f5558041e4c574ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 081/105] fix: DB1 counts out of range were not refused when
 asking for their calibrated value

---
 msat/thornsds_db1/thornsds_db1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5aaec70..4ecdf89 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -405,7 +405,7 @@ float MSG_db1_data::get_channel_Calibration_B( )
 float MSG_db1_data::get_channel_Calibration_value_calibrated( int count )
 {
   if (! is_data_ok( )) return 0;
-  if (count < 0 && count >= ncalval) return 0.0;
+  if (count < 0 || count >= ncalval) return 0.0;
   snprintf(infochuse, INFOCHLEN, "%s:%s(%d)", get_channel_INFO_variable( ),
            get_channel_INFO_variable_code( ), count);
   return (float) iniparser_getdouble(Calibration, infochuse, 0.0);
-- 
2.43.0


From 5073dcac4051a92de56de27ea009d5e56066cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 082/105] fix: asking whether a DB1 directory has another
 channel changed the data size of the channel in use

---
 msat/thornsds_db1/thornsds_db1.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 4ecdf89..7a017c5 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -82,7 +82,8 @@ bool MSG_db1_data::has_channel(char *chname)
   }
   char chfname[PATH_MAX];
   sprintf(chfname, "%s/%s.RAW", dirname, chname);
-  if (stat(chfname, &chfstat) == 0)
+  struct stat st;
+  if (stat(chfname, &st) == 0)
     return true;
   return false;
 }
@@ -104,9 +105,10 @@ void MSG_db1_data::set_channel(char *chname)
   }
   sprintf(iname, "%s/%s.RAW", dirname, chname);
   FILE *fp = fopen(iname, "r");
-  if (! fp)
+  if (! fp || fstat(fileno(fp), &chfstat) != 0)
   {
     std::cerr << "Cannot open file: " << iname << std::endl;
+    if (fp) fclose(fp);
     return;
   }
   rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
-- 
2.43.0


From 46eba93c8b5b50177a49ad5f827c6ec1407c4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 083/105] fix: setting a DB1 channel that cannot be read kept
 the data of the channel before, with another calibration

---
 msat/thornsds_db1/thornsds_db1.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 7a017c5..f7caf05 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -90,10 +90,18 @@ bool MSG_db1_data::has_channel(char *chname)
 
 void MSG_db1_data::set_channel(char *chname)
 {
+  // Forget the channel in use
+  if (Calibration) { iniparser_free(Calibration); Calibration = 0; }
+  if (rawdata) { delete [ ] rawdata; rawdata = 0; }
+  if (cal_values) { delete [ ] cal_values; cal_values = 0; }
+  chnum = 0;
+  ncalval = -1;
+
   if (! this->has_channel(chname))
   {
     if (dirname)
       std::cerr << "Channel not present in " << dirname << std::endl;
+    return;
   }
   char iname[PATH_MAX];
   sprintf(iname, "%s/%s.Calibration", dirname, chname);
@@ -111,10 +119,11 @@ void MSG_db1_data::set_channel(char *chname)
     if (fp) fclose(fp);
     return;
   }
-  rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
+  rawdata = new unsigned short[(chfstat.st_size + 1) / sizeof(short)];
   if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
   {
     std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
     return;
   }
   fclose(fp);
-- 
2.43.0


From f9b3d3cc4422e7a7a4b24c7da38b3dd85302ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 084/105] fix: opening another DB1 directory kept the channel
 of the one before, and leaked

---
 msat/thornsds_db1/thornsds_db1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index f7caf05..681f838 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -61,6 +61,7 @@ void MSG_db1_data::close( )
 void MSG_db1_data::open( char *directory )
 {
   char iname[PATH_MAX];
+  this->close( );
   this->dirname = strdup(directory);
   snprintf(iname, PATH_MAX, "%s/%s", directory, "AoI");
   AoI = iniparser_new(iname);
-- 
2.43.0


From 8f4eab2a210b7fd1fb68f50e756f6f0691cd01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 085/105] fix: a DB1 directory with an impossible number of
 bits per pixel overflowed the size of the calibration table

---
 msat/thornsds_db1/thornsds_db1.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 681f838..c5e8324 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -129,7 +129,14 @@ void MSG_db1_data::set_channel(char *chname)
   }
   fclose(fp);
   this->chnum = get_channel_number(chname);
-  ncalval = (int) (pow(2.0, (double) get_INFO_image_bitsperpixel( )));
+  int bits = get_INFO_image_bitsperpixel( );
+  if (bits < 0 || bits > 16)
+  {
+    std::cerr << "Invalid number of bits per pixel: " << bits << std::endl;
+    chnum = 0;
+    return;
+  }
+  ncalval = 1 << bits;
   cal_values = new float[ncalval];
 
   for (int i = 0; i < ncalval; i ++)
-- 
2.43.0


From a09f92940ab9fee47d276a846ec0841aaad07240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 086/105] fix: long DB1 directory or channel names overflowed
 the buffers of the file names

---
 msat/thornsds_db1/thornsds_db1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index c5e8324..6ba3d8a 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -82,7 +82,7 @@ bool MSG_db1_data::has_channel(char *chname)
     return false;
   }
   char chfname[PATH_MAX];
-  sprintf(chfname, "%s/%s.RAW", dirname, chname);
+  snprintf(chfname, PATH_MAX, "%s/%s.RAW", dirname, chname);
   struct stat st;
   if (stat(chfname, &st) == 0)
     return true;
@@ -105,14 +105,14 @@ void MSG_db1_data::set_channel(char *chname)
     return;
   }
   char iname[PATH_MAX];
-  sprintf(iname, "%s/%s.Calibration", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.Calibration", dirname, chname);
   Calibration = iniparser_new(iname);
   if (Calibration == 0)
   {
     std::cerr << "No such file: " << iname << std::endl;
     std::cerr << "No Calibration performed for " << chname << std::endl;
   }
-  sprintf(iname, "%s/%s.RAW", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.RAW", dirname, chname);
   FILE *fp = fopen(iname, "r");
   if (! fp || fstat(fileno(fp), &chfstat) != 0)
   {
-- 
2.43.0


From e6280f38cab6ea4bc1f7cb36cacff5c35f2009f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 087/105] fix: db1_to_image ignored the name of the overlay
 image it was given

---
 tools/thornsds_db1/db1_to_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 720a081..2aa556e 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -102,7 +102,7 @@ int main (int argc, char *argv[])
   if (image_overlay)
   {
     Magick::Image overlay;
-    overlay.read("SEVIRI_OVERLAY.pgm");
+    overlay.read(image_overlay);
     image->composite(overlay, 0, 0, Magick::PlusCompositeOp);
   }
 
-- 
2.43.0


From a0f4375d0307137a02a6307eb54dd4bcf77687c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 088/105] fix: OpenMTP files that could not be opened or ended
 early ended the process: the errors were thrown from nowhere

---
 msat/openmtp/OpenMTP.cpp               |  3 ++-
 msat/openmtp/OpenMTP_ascii_header.cpp  |  3 ++-
 msat/openmtp/OpenMTP_binary_header.cpp | 11 ++++++-----
 msat/openmtp/OpenMTP_image_line.cpp    |  3 ++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 15a70e9..3addec4 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -30,6 +30,7 @@
 #include <fstream>
 #include <time.h>
 #include <stdlib.h>
+#include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 #include "OpenMTP_binary_header.h"
 #include "OpenMTP_image.h"
@@ -44,7 +45,7 @@ void OpenMTP::open( char *inname )
   if (infile.fail())
   {
     cerr << "Cannot open input OpenMTP file " << inname << endl;
-    throw;
+    throw std::runtime_error("cannot open OpenMTP file");
   }
   read(infile);
   return;
diff --git a/msat/openmtp/OpenMTP_ascii_header.cpp b/msat/openmtp/OpenMTP_ascii_header.cpp
index 742491a..3e3a4ec 100644
--- a/msat/openmtp/OpenMTP_ascii_header.cpp
+++ b/msat/openmtp/OpenMTP_ascii_header.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 
 OpenMTP_ascii_header::OpenMTP_ascii_header( ) { }
@@ -45,7 +46,7 @@ void OpenMTP_ascii_header::read( std::ifstream &file )
   if (file.fail( ))
   {
     std::cerr << "Read error from OpenMTP file: ASCII Header." << std::endl;
-    throw;
+    throw std::runtime_error("cannot read the ASCII header of OpenMTP file");
   }
   header[ASCII_HEADER_LENGTH] = 0;
   return;
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index e62456b..83e09b1 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -30,6 +30,7 @@
 #include <string.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_machine.h"
 #include "OpenMTP_binary_header.h"
 
@@ -50,7 +51,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
   if (file.fail( ))
   {
     std::cerr << "Read error : BINARY Header, first section." << std::endl;
-    throw;
+    throw std::runtime_error("cannot read the binary header of OpenMTP file");
   }
 
   pnt = header + BINARY_HEADER_FIRST_SECTION_LENGTH;
@@ -61,7 +62,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("cannot read the binary header of OpenMTP file");
     }
   }
   else
@@ -70,7 +71,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("cannot read the binary header of OpenMTP file");
     }
   }
 
@@ -81,7 +82,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("cannot read the binary header of OpenMTP file");
     }
   }
   else
@@ -90,7 +91,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("cannot read the binary header of OpenMTP file");
     }
   }
 
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 9c88faa..1856a6d 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image_line.h"
 
 OpenMTP_image_line::OpenMTP_image_line( ) { }
@@ -46,7 +47,7 @@ void OpenMTP_image_line::read( std::ifstream &file, int npixels)
   if (file.fail( ))
   {
     std::cerr << "Read error from OpenMTP file: Image Line." << std::endl;
-    throw;
+    throw std::runtime_error("cannot read a line of OpenMTP file");
   }
   return;
 }
-- 
2.43.0


From d7af5f2be8daa27cf6a2c174094d31ef53f87510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 089/105] fix: OpenMTP images of impossible size overflowed the
 buffers of the line and of the image

---
 msat/openmtp/OpenMTP_image.cpp      | 4 ++++
 msat/openmtp/OpenMTP_image_line.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index a794924..1783eb4 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -31,6 +31,7 @@
 #include <cmath>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image.h"
 
 OpenMTP_image::OpenMTP_image( ) { image = 0; }
@@ -49,6 +50,9 @@ void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
   nlines = h.nlines( );
   npixels = h.npixels( );
 
+  if (nlines < 0 || nlines > 5000 || npixels < 0 || npixels > 5000)
+    throw std::runtime_error("invalid size of the image of OpenMTP file");
+
   if (!image)
     image = new unsigned char[nlines*npixels];
 
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 1856a6d..52081ab 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -42,6 +42,8 @@ OpenMTP_image_line::~OpenMTP_image_line( ) { }
 
 void OpenMTP_image_line::read( std::ifstream &file, int npixels)
 {
+  if (npixels < 0 || npixels > MAX_PIXELS)
+    throw std::runtime_error("invalid number of pixels in the lines of OpenMTP file");
   npix = npixels;
   file.read((char *) line, npixels+32);
   if (file.fail( ))
-- 
2.43.0


From 22dc314aaf230033b38d1a0b4a4f89359aceb5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 090/105] fix: reading a second OpenMTP file with the same
 object wrote its image in the memory of the first

---
 msat/openmtp/OpenMTP_image.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index 1783eb4..aedffd5 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -40,7 +40,7 @@ OpenMTP_image::OpenMTP_image( std::ifstream &file, OpenMTP_binary_header &h )
   image = 0;
   read(file, h);
 }
-OpenMTP_image::~OpenMTP_image( ) { if (image) delete image; }
+OpenMTP_image::~OpenMTP_image( ) { delete [] image; }
 
 void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
 {
@@ -53,8 +53,9 @@ void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
   if (nlines < 0 || nlines > 5000 || npixels < 0 || npixels > 5000)
     throw std::runtime_error("invalid size of the image of OpenMTP file");
 
-  if (!image)
-    image = new unsigned char[nlines*npixels];
+  delete [] image;
+  image = 0;
+  image = new unsigned char[nlines*npixels];
 
   for (int i = 0; i < nlines; i ++)
   {
-- 
2.43.0


From 297284660f3a0d055ae0e9dfb1206bbb924f6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 091/105] fix: every OpenMTP image was said to be a subwindow

---
 msat/openmtp/OpenMTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 3addec4..9c2061a 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -134,7 +134,7 @@ bool OpenMTP::is_B_format( )
 
 bool OpenMTP::is_subwindow( )
 {
-  return (!is_A_format( ) || !is_B_format( ));
+  return (!is_A_format( ) && !is_B_format( ));
 }
 
 int OpenMTP::nlines( ) { return binary_header.nlines( ); }
-- 
2.43.0


From 6a4f08d77bd6fd99e7cd56f515a3aa4b6629590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 092/105] fix: only the first 20 of the 256 classes of the
 OpenMTP histograms were given

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 83e09b1..95ed63e 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -476,7 +476,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+5319+4*i);
   return tmp;
 }
@@ -484,7 +484,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram_VISn( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+6343+4*i);
   return tmp;
 }
-- 
2.43.0


From ec8107c77edadff19def3933ec862ffbefd8dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 093/105] fix: the times of the horizon scan lines of OpenMTP
 headers were read from the horizon limits

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 95ed63e..20b8e51 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -608,8 +608,8 @@ short *OpenMTP_binary_header::urec_horizon_limit_information( )
 double *OpenMTP_binary_header::urec_times_of_horizon_scan_lines( )
 {
   static double tmp[2];
-  tmp[0] = m.float8(header+7579);
-  tmp[1] = m.float8(header+7579+8);
+  tmp[0] = m.float8(header+7603);
+  tmp[1] = m.float8(header+7603+8);
   return tmp;
 }
 short OpenMTP_binary_header::urec_radiometer_step_south( )
-- 
2.43.0


From 8c1e03006fb8b54492e3618d7626e6823fbc6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 094/105] fix: asking for the presence of an OpenMTP line out
 of the table read other parts of the header, or beyond it

---
 msat/openmtp/OpenMTP_binary_header.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 20b8e51..5597b95 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -390,10 +390,12 @@ char *OpenMTP_binary_header::missing_line_table_VISn( )
 }
 bool OpenMTP_binary_header::is_line_present( int line_index )
 {
+  if (line_index < 0 || line_index >= 2500) return false;
   return (*(header+155+line_index) > 0);
 }
 bool OpenMTP_binary_header::is_line_present_VISn( int line_index )
 {
+  if (line_index < 0 || line_index >= 2500) return false;
   return (*(header+2655+line_index) > 0);
 }
 int OpenMTP_binary_header::urect_nominal_end_time( )
-- 
2.43.0


From 76206ae507838e94437d20e918ac3bcc335632f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:12 +0000
Subject: [PATCH 095/105] fix: waiting with a timeout for a child that had
 already ended well said that it was still running

---
 msat/utils/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 6d7b058..c207a25 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -410,7 +410,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
-- 
2.43.0


From d9f0444868cb0e97005ff518ea4675937214347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 096/105] fix: signals sent to a child not yet started went to
 the whole process group of the caller, those to a reaped child to whoever has
 its PID

---
 msat/utils/subprocess.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index c207a25..d59a31d 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -457,6 +457,14 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        throw std::runtime_error("send_signal called before Child process was started");
+
+    if (m_terminated)
+        throw std::system_error(
+                ESRCH, std::system_category(),
+                "cannot send signal " + std::to_string(sig) + " to child PID " + std::to_string(m_pid));
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From 967c42e1fd195d65e055b42816ad67529f95b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 097/105] fix: the same file given as standard output and error
 of a child, or one of its standard descriptors, was closed before the child
 could use it

---
 msat/utils/subprocess.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index d59a31d..a4abfa3 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -216,7 +216,8 @@ void Child::post_fork_child()
         switch (m_stdin_action)
         {
             case Redirect::FD:
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
+                if (dup2(m_stdin[0], STDIN_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stdin");
                 break;
             case Redirect::PIPE:
                 if (close(m_stdin[1]) == -1)
@@ -236,7 +237,8 @@ void Child::post_fork_child()
         switch (m_stdout_action)
         {
             case Redirect::FD:
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
+                if (dup2(m_stdout[1], STDOUT_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stdout");
                 break;
             case Redirect::PIPE:
                 if (close(m_stdout[0]) == -1)
@@ -256,7 +258,8 @@ void Child::post_fork_child()
         switch (m_stderr_action)
         {
             case Redirect::FD:
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
+                if (dup2(m_stderr[1], STDERR_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr");
                 break;
             case Redirect::PIPE:
                 if (close(m_stderr[0]) == -1)
-- 
2.43.0


From 6452a6bb990eb7ebc676c31b9516467dec93dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 098/105] fix: a child whose pipe got the number of its own
 standard descriptor was left without it

---
 msat/utils/subprocess.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index a4abfa3..b95ce57 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -202,6 +202,8 @@ void Child::post_fork_parent()
 
 static void redirect(int newfd, int oldfd, const char* errmsg)
 {
+    if (newfd == oldfd)
+        return;
     if (dup2(newfd, oldfd) == -1)
         throw std::system_error(errno, std::system_category(), errmsg);
     if (close(newfd) == -1 )
-- 
2.43.0


From 45926c742f72caf9b62462f6722d8f5023c0d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 099/105] fix: setting a background colour of the terminal set
 a bright foreground colour

---
 msat/utils/term.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/term.cc b/msat/utils/term.cc
index e10180b..08d8b76 100644
--- a/msat/utils/term.cc
+++ b/msat/utils/term.cc
@@ -82,7 +82,7 @@ struct SGR
         {
             append(99 + (col & color_mask));
         } else if (col & color_mask) {
-            append(89 + (col & color_mask));
+            append(39 + (col & color_mask));
         }
     }
 };
-- 
2.43.0


From b47e336427e5c84bda4d05624bb463d66a7674f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:41 +0000
Subject: [PATCH 100/105] fix: db1_to_image drew what lies beyond the data when
 there is less than the image needs, and aborted when it could not write

---
 tools/thornsds_db1/db1_to_image.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 2aa556e..f36176b 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -32,6 +32,8 @@
 
 #include <limits.h>
 #include <iostream>
+#include <cstring>
+#include <stdexcept>
 #include <msat/thornsds_db1/thornsds_db1.h>
 
 int main (int argc, char *argv[])
@@ -91,6 +93,11 @@ int main (int argc, char *argv[])
     if (outname[i] == ':') outname[i] = '-';
   }
 
+  try {
+  // The picture cannot be larger than the data there is for it
+  if (db1.get_INFO_image_pixels( ) <= 0 || db1.get_INFO_image_lines( ) <= 0 ||
+      (long long) db1.get_INFO_image_pixels( ) * db1.get_INFO_image_lines( ) > db1.get_raw_data_nvals( ))
+    throw std::runtime_error("wrong image size");
   Magick::Image *image = new Magick::Image(db1.get_INFO_image_pixels( ),
                                            db1.get_INFO_image_lines( ),
                                            "I", Magick::ShortPixel,
@@ -111,6 +118,10 @@ int main (int argc, char *argv[])
   image->scale(geom);
 
   image->write(outname);
+  } catch (std::exception &e) {
+    std::cerr << outname << ": " << e.what( ) << std::endl;
+    return -1;
+  }
 
   db1.close( );
   return 0;
-- 
2.43.0


From 090d1e03b87c1cdf69e1bc07853488a8c1af0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:07 +0000
Subject: [PATCH 101/105] fix: OpenMTP_info aborted on files it cannot read

---
 tools/openmtp/OpenMTP_info.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/openmtp/OpenMTP_info.cc b/tools/openmtp/OpenMTP_info.cc
index da5dc6f..3aec85e 100644
--- a/tools/openmtp/OpenMTP_info.cc
+++ b/tools/openmtp/OpenMTP_info.cc
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstdlib>
+#include <exception>
 
 // OpenMTP format interface
 
@@ -37,7 +38,12 @@ static bool
 OpenMTP_info( char *inpath )
 {
   OpenMTP omtp;
-  omtp.open(inpath);
+  try {
+    omtp.open(inpath);
+  } catch (std::exception &e) {
+    std::cerr << e.what( ) << std::endl;
+    return false;
+  }
   std::cout << omtp;
   return true;
 }
-- 
2.43.0


From 72983ab70edce769d8d90550b477a82efc3cb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:11 +0000
Subject: [PATCH 102/105] fix: calibrating a band with large blocks overflowed
 the stack

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index e209384..12cd29b 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -23,6 +23,7 @@
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <vector>
 
 using namespace std;
 
@@ -415,8 +416,8 @@ double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the raw data
-    uint16_t raw[nBlockXSize * nBlockYSize];
-    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
+    std::vector<uint16_t> raw((size_t)nBlockXSize * nBlockYSize);
+    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
     // Compute reflectances
-- 
2.43.0


From f85779d1ae47a14d446466440e8a16851ae507e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:10 +0000
Subject: [PATCH 103/105] fix: the ends of the values of a band calibrated with
 a negative scale were swapped

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 12cd29b..5b35ab3 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -385,13 +385,14 @@ const char* CalibratedRasterBand::GetMetadataItem(const char *pszName, const cha
 
 double CalibratedRasterBand::GetMinimum(int *pbSuccess)
 {
-    double res = rb.GetMinimum(pbSuccess);
+    // With a negative scale, the greatest count is the least value
+    double res = scale < 0 ? rb.GetMaximum(pbSuccess) : rb.GetMinimum(pbSuccess);
     return res * scale + ofs;
 }
 
 double CalibratedRasterBand::GetMaximum(int *pbSuccess)
 {
-    double res = rb.GetMaximum(pbSuccess);
+    double res = scale < 0 ? rb.GetMinimum(pbSuccess) : rb.GetMaximum(pbSuccess);
     return res * scale + ofs;
 }
 
-- 
2.43.0


From 8fae0099631179205f6fe13d947bac4490f9f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:37 +0000
Subject: [PATCH 104/105] fix: the ground control points of a translation
 request were freed by its first use

---
 msat/gdal/gdaltranslate.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 91cb308..229cabc 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -116,6 +116,11 @@ GDALTranslate::GDALTranslate()
 GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
+    if (pasGCPs)
+    {
+        GDALDeinitGCPs( nGCPCount, pasGCPs );
+        CPLFree( pasGCPs );
+    }
     CSLDestroy( papszCreateOptions );
     CSLDestroy( papszMetadataOptions );
 }
@@ -434,9 +439,6 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             pszGCPProjection = "";
 
         poVDS->SetGCPs( nGCPCount, pasGCPs, pszGCPProjection );
-
-        GDALDeinitGCPs( nGCPCount, pasGCPs );
-        CPLFree( pasGCPs );
     }
 
     else if( GDALGetGCPCount( hDataset ) > 0 )
-- 
2.43.0


From 8f1210e4b50c155718c077b1c96077272c2e9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:37 +0000
Subject: [PATCH 105/105] fix: expanding a colour table read past the list of
 bands of the request

---
 msat/gdal/gdaltranslate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 229cabc..41c6711 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -509,8 +509,12 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             }
         }
         else
+        {
+            /* The first entry of the list takes up the first nRGBExpand bands */
+            int iSrc = nRGBExpand != 0 ? i - nRGBExpand + 1 : i;
             poSrcBand = ((GDALDataset *) 
-                        hDataset)->GetRasterBand(panBandList[i]);
+                        hDataset)->GetRasterBand(panBandList[iSrc]);
+        }
 
 /* -------------------------------------------------------------------- */
 /*      Select output data type to match source.                        */
-- 
2.43.0

