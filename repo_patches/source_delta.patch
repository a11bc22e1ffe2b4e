From 1fb2995f8ef565106c299100ad09d2224407be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 01/47] fix: replace the destination's content when extracting
 a map from a packet

Elements already in the destination survived the extraction, and shadowed
extracted ones with the same key. Strings and vectors are replaced too.
---
 include/frnetlib/Packet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..776f94d 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -173,6 +173,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
@@ -213,6 +214,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
-- 
2.43.0


From 65ced9f33faeff158444a195c682524b210fc751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 02/47] fix: don't let a huge size wrap around the packet
 bounds check

---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 776f94d..d2a497f 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -697,7 +697,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(required_space > get_bytes_remaining())
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From c47153d991abdf0a02d9bbfe916e752044ecdc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 03/47] fix: clamp packet seeks without overflowing

---
 include/frnetlib/Packet.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index d2a497f..a22314b 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -645,8 +645,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
-            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
+            buffer_read_index = PACKET_HEADER_LENGTH + (pos < size() ? pos : size());
         }
 
         /*!
@@ -668,12 +667,14 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
-            if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
-                new_offset = PACKET_HEADER_LENGTH;
-            if(new_offset > (ssize_t)buffer.size())
-                new_offset = buffer.size();
-            buffer_read_index = static_cast<size_t>(new_offset);
+            //Clamp the distance first, as adding an arbitrary offset to the cursor could overflow
+            auto max_backward = -static_cast<ssize_t>(get_cursor());
+            auto max_forward = static_cast<ssize_t>(get_bytes_remaining());
+            if(pos < max_backward)
+                pos = max_backward;
+            if(pos > max_forward)
+                pos = max_forward;
+            buffer_read_index += pos;
         }
 
         /*!
-- 
2.43.0


From f5ade069ee0b109f17e6459bee90405b9f297b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 04/47] fix: don't trust the announced length when extracting a
 vector

---
 include/frnetlib/Packet.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index a22314b..53369a6 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -4,6 +4,7 @@
 
 #ifndef FRNETLIB_PACKET_H
 #define FRNETLIB_PACKET_H
+#include <algorithm>
 #include <string>
 #include <cstring>
 #include <iostream>
@@ -135,12 +136,17 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+
+            //The length can't be trusted, so don't allocate for more elements than there could be
+            vec.clear();
+            vec.reserve(std::min<size_t>(length, get_bytes_remaining()));
 
             //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&elem = vec.back();
+                *this >> elem;
             }
             return *this;
         }
-- 
2.43.0


From 8651f70b7667cce22c2f6fb2cb4b07b37841b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 05/47] fix: extract booleans from packets as proper true or
 false

---
 include/frnetlib/Packet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 53369a6..95b1d25 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -270,10 +270,10 @@ namespace fr
          */
         inline Packet &operator>>(bool &var)
         {
-            assert_bytes_remaining(sizeof(var));
-
-            memcpy(&var, &buffer[buffer_read_index], sizeof(var));
-            buffer_read_index += sizeof(var);
+            //Not every byte value is a valid bool representation
+            uint8_t val;
+            *this >> val;
+            var = val != 0;
             return *this;
         }
 
-- 
2.43.0


From eee9499338a325e1668e573a4a77d6c2eaa1db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 06/47] fix: receiving into a used packet replaces its content
 and cursor

---
 include/frnetlib/Packet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 95b1d25..94b1547 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -780,9 +780,9 @@ namespace fr
             if(socket->get_max_receive_size() && packet_length > socket->get_max_receive_size())
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
-            //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            //Now we've got the length, read the rest of the data in, replacing whatever was here before
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From d710b46e9e9f47161069586c61e857bdb52d682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 07/47] fix: base64 encode inputs shorter than two bytes
 without reading out of bounds

---
 src/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..3aa375a 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
-- 
2.43.0


From e9458bab2a94640b827c919405320a05e03a5475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 08/47] fix: url_decode handles lower case and malformed
 escapes

---
 src/Http.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..7830edd 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -165,15 +165,20 @@ namespace fr
 
     std::string Http::url_decode(const std::string &str)
     {
+        auto hex_value = [](char c) -> int {
+            if(c >= '0' && c <= '9') return c - '0';
+            if(c >= 'A' && c <= 'F') return c - 'A' + 10;
+            if(c >= 'a' && c <= 'f') return c - 'a' + 10;
+            return -1;
+        };
+
         std::string result;
         for(size_t a = 0; a < str.size(); a++)
         {
-            if(str[a] == '%' && a < str.size() - 1)
+            if(str[a] == '%' && a + 2 < str.size() && hex_value(str[a + 1]) >= 0 && hex_value(str[a + 2]) >= 0)
             {
-                int ch1 = str[++a] - 48;
-                int ch2 = str[++a] - 48;
-                if(ch1 > 9) ch1 -= 7;
-                if(ch2 > 9) ch2 -= 7;
+                int ch1 = hex_value(str[++a]);
+                int ch2 = hex_value(str[++a]);
                 uint8_t ret = 0;
                 ret |= ch1 << 4;
                 ret |= ch2;
-- 
2.43.0


From 11f355b348b6d580efc9d2bcb5e60deb85cca6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 09/47] fix: register the mimetypes of jpeg, jpg, atom and rss
 files under their own extensions

---
 src/Http.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 7830edd..7817117 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -321,7 +321,7 @@ namespace fr
                 {".s", "text/x-asm"},
                 {".atomcat", "application/atomcat+xml"},
                 {".atomsvc", "application/atomsvc+xml"},
-                {".atom, .xml", "application/atom+xml"},
+                {".atom", "application/atom+xml"},
                 {".ac", "application/pkix-attr-cert"},
                 {".aif", "audio/x-aiff"},
                 {".avi", "video/x-msvideo"},
@@ -542,8 +542,8 @@ namespace fr
                 {".json", "application/json"},
                 {".joda", "application/vnd.joost.joda-archive"},
                 {".jpm", "video/jpm"},
-                {".jpeg, .jpg", "image/jpeg"},
-                {".jpeg, .jpg", "image/x-citrix-jpeg"},
+                {".jpeg", "image/jpeg"},
+                {".jpg", "image/jpeg"},
                 {".pjpeg", "image/pjpeg"},
                 {".jpgv", "video/jpeg"},
                 {".ktz", "application/vnd.kahootz"},
@@ -820,7 +820,7 @@ namespace fr
                 {".rtf", "application/rtf"},
                 {".rtx", "text/richtext"},
                 {".link66", "application/vnd.route66.link66+xml"},
-                {".rss, .xml", "application/rss+xml"},
+                {".rss", "application/rss+xml"},
                 {".shf", "application/shf+xml"},
                 {".st", "application/vnd.sailingtracker.track"},
                 {".svg", "image/svg+xml"},
-- 
2.43.0


From d9732b226aec9411286ad0f8d8a636ee13c69f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 10/47] fix: tell the ftp and sftp URL schemes apart

---
 src/URL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..939a873 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
@@ -84,7 +84,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From d4cbbdeae1a991c02aaba08ed62455b9559058b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 11/47] fix: initialise the scheme of a default constructed URL

---
 include/frnetlib/URL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..eafdf46 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme = Scheme::Unknown;
         std::string host;
         std::string port;
         std::string path;
-- 
2.43.0


From 824d7aaa7558647e5054b75bb592ed7b3e14fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 12/47] fix: forget the previous URL when parsing another one
 into the same object

---
 src/URL.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/URL.cpp b/src/URL.cpp
index 939a873..3f29dfd 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,6 +29,11 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From 6d7c50be6be152afc2b1072e19add026d133aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 13/47] fix: split URLs at the first delimiter of each
 component

---
 src/URL.cpp | 73 ++++++++++++++++++-----------------------------------
 1 file changed, 24 insertions(+), 49 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 3f29dfd..7cadbac 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -37,40 +37,38 @@ namespace fr
         size_t parse_offset = 0;
         size_t pos = 0;
 
+        //The fragment begins at the first '#', and the query at the first '?' before it. They may contain any of the other delimiters
+        const size_t fragment_begin = std::min(url.find('#'), url.size());
+        const size_t query_begin = std::min(url.find('?'), fragment_begin);
+
         //Check to see if a scheme exists
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos < query_begin && url.find('/') > pos)
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
+        //The path begins at the first '/' after the host
+        const size_t path_begin = std::min(url.find('/', parse_offset), query_begin);
+
         //Check to see if there's a port
         pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        if(pos < path_begin) //A port is provided
         {
-            //Store host
+            //Store host and port
             host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
-
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            port = url.substr(pos + 1, path_begin - pos - 1);
+            parse_offset = path_begin;
         }
         else //There's no port
         {
-            //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
+            //Store host. If there's nothing but a single word, then it's a path
+            if(path_begin < url.size() || parse_offset != 0)
             {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
+                host = url.substr(parse_offset, path_begin - parse_offset);
+                parse_offset = path_begin;
             }
 
             //Guess port based on scheme, if it's not explicitly provided.
@@ -96,41 +94,18 @@ namespace fr
             }
         }
 
-        //Exit if done
-        if(parse_offset >= url.size())
-            return;
-
         //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
-        else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+        path = url.substr(parse_offset, query_begin - parse_offset);
+        if(!path.empty() && path.front() != '/')
+            path.insert(path.begin(), '/');
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
-        {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
-        }
+        if(query_begin < fragment_begin)
+            query = url.substr(query_begin + 1, fragment_begin - query_begin - 1);
 
+        //Extract the fragment
+        if(fragment_begin < url.size())
+            fragment = url.substr(fragment_begin + 1);
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From 449ec4a02fce7ad7dc4c7c77d8e1440cd863cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 14/47] fix: recognise only prefixes of request types as
 partial

---
 include/frnetlib/Http.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index a25c294..7bf0566 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -341,10 +341,8 @@ namespace fr
                 int cmp_ret = str.compare(0, type_string.size(), type_string);
                 if(cmp_ret == 0)
                     return static_cast<RequestType>(a);
-                if(str.size() < type_string.size() && cmp_ret < 0)
+                if(str.size() < type_string.size() && type_string.compare(0, str.size(), str) == 0)
                     type = Http::RequestType::Partial;
-                if(type != Http::RequestType::Partial && str.size() < type_string.size() && cmp_ret > 0)
-                    type = Http::RequestType::Unknown;
             }
 
             return type;
-- 
2.43.0


From 05a2e49a72d4b9eef0372946f66fbbe11bc03a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 15/47] fix: find the HTTP version at the end of the request
 line, and require a URI before it

---
 src/HttpRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..96fe27c 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -200,8 +200,8 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
-        if(uri_begin == std::string::npos || uri_end == std::string::npos)
+        auto uri_end = str.rfind("HTTP");
+        if(uri_begin == std::string::npos || uri_end == std::string::npos || uri_begin > uri_end)
         {
             throw std::invalid_argument("No URI found in: " + str);
         }
-- 
2.43.0


From b073fd2a599ccfdefc914428dbeab896b6b62949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 16/47] fix: end HTTP headers at the first empty line,
 whichever line ends are used

---
 include/frnetlib/Http.h | 10 ++++++++++
 src/Http.cpp            | 18 ++++++++++++++++++
 src/HttpRequest.cpp     |  9 ++-------
 src/HttpResponse.cpp    |  9 ++-------
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 7bf0566..0e5a689 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -381,6 +381,16 @@ namespace fr
          */
         static std::vector<std::string> split_string(const std::string &str, char token = '\n', bool strip_spacing = false);
 
+        /*!
+         * Finds the end of the HTTP header: the first empty line. Lines may
+         * end in either CRLF or a bare LF.
+         *
+         * @param str The data to search
+         * @param terminator_size Filled with the number of bytes between the header and what follows it
+         * @return The position of the end of the header, std::string::npos if it isn't there yet.
+         */
+        static size_t find_header_end(const std::string &str, size_t &terminator_size);
+
         /*!
          * Converts a parameter list to a vector pair.
          * i.e: ?bob=10&fish=hey
diff --git a/src/Http.cpp b/src/Http.cpp
index 7817117..e677ca5 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -196,6 +196,24 @@ namespace fr
         return result;
     }
 
+    size_t Http::find_header_end(const std::string &str, size_t &terminator_size)
+    {
+        for(auto line_end = str.find('\n'); line_end != std::string::npos; line_end = str.find('\n', line_end + 1))
+        {
+            //Is the next line empty?
+            size_t next = line_end + 1;
+            if(next < str.size() && str[next] == '\r')
+                ++next;
+            if(next < str.size() && str[next] == '\n')
+            {
+                size_t header_end = (line_end > 0 && str[line_end - 1] == '\r') ? line_end - 1 : line_end;
+                terminator_size = next + 1 - header_end;
+                return header_end;
+            }
+        }
+        return std::string::npos;
+    }
+
     std::vector<std::pair<std::string, std::string>> Http::parse_argument_list(const std::string &str)
     {
         std::vector<std::pair<std::string, std::string>> list;
diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 96fe27c..3b90668 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -26,13 +26,8 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Check to see if this request data contains the end of the header
-            uint16_t header_end_size = 4;
-            auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
-            {
-                header_end = body.find("\n\n");
-                header_end_size = 2;
-            }
+            size_t header_end_size = 0;
+            auto header_end = find_header_end(body, header_end_size);
             header_ended = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..2338c46 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -19,13 +19,8 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Check to see if this request data contains the end of the header
-            uint16_t header_end_size = 4;
-            auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
-            {
-                header_end = body.find("\n\n");
-                header_end_size = 2;
-            }
+            size_t header_end_size = 0;
+            auto header_end = find_header_end(body, header_end_size);
             header_ended = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-- 
2.43.0


From ea661146009b19424a6b3272168d68b4571f991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 17/47] fix: make the HTTP header limit independent of how the
 header is split

---
 src/HttpRequest.cpp  | 4 ++--
 src/HttpResponse.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 3b90668..b0fcc69 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -30,8 +30,8 @@ namespace fr
             auto header_end = find_header_end(body, header_end_size);
             header_ended = header_end != std::string::npos;
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. All but the last byte of the 4 byte empty line might already be here
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 2338c46..df9be2b 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -23,8 +23,8 @@ namespace fr
             auto header_end = find_header_end(body, header_end_size);
             header_ended = header_end != std::string::npos;
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. All but the last byte of the 4 byte empty line might already be here
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
-- 
2.43.0


From bd7d56411ccbb41aa02198c6cfd973766a8828ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 18/47] fix: announce the length of POST variables in
 constructed requests

---
 src/HttpRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index b0fcc69..eafe57e 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -129,7 +129,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
@@ -142,7 +142,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(!body.empty() || !post_string.empty())
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 4762361b9a3910e2f007c4fa9279244b6559e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 19/47] fix: cut off what follows the announced content length

---
 src/HttpRequest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index eafe57e..be698bd 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -48,6 +48,10 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        if(body.size() > content_length && header_data.find("content-length") != header_data.end())
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
         {
-- 
2.43.0


From c634d733e5bd867f0eddd22a94a6c2229ac700f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 20/47] fix: cut off what follows the announced content length
 of responses before applying the body limit

---
 src/HttpResponse.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index df9be2b..bc55de6 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -41,11 +41,9 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
-        //Ensure that body doesn't exceed maximum length
-        if(body.size() > MAX_HTTP_BODY_SIZE)
-            return fr::Socket::Status::HttpBodyTooBig;
-
         //Check if chunked encoding
+        if(body.size() > MAX_HTTP_BODY_SIZE && transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
+            return fr::Socket::Status::HttpBodyTooBig;
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
             //It's chunked, find the length of the chunk in hex!
@@ -75,9 +73,14 @@ namespace fr
         }
 
         //Cut off any data if it exceeds content length, provided that a content length is specified
-        if(content_length > 0 && body.size() > content_length)
+        if(body.size() > content_length && header_data.find("content-length") != header_data.end())
             body.resize(content_length);
-        else if(body.size() < content_length)
+
+        //Ensure that body doesn't exceed maximum length
+        if(body.size() > MAX_HTTP_BODY_SIZE)
+            return fr::Socket::Status::HttpBodyTooBig;
+
+        if(body.size() < content_length)
             return fr::Socket::Status::NotEnoughData;
         return fr::Socket::Status::Success;
 
-- 
2.43.0


From 741bbda854083d20b78dc6915e7ff857220f3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 21/47] fix: refuse malformed chunk sizes, bound chunked bodies
 by their decoded size and drop what follows the last chunk

---
 include/frnetlib/HttpResponse.h |  9 ++++++++
 src/HttpResponse.cpp            | 38 ++++++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/frnetlib/HttpResponse.h b/include/frnetlib/HttpResponse.h
index f91c802..858abff 100644
--- a/include/frnetlib/HttpResponse.h
+++ b/include/frnetlib/HttpResponse.h
@@ -47,6 +47,15 @@ namespace fr
          */
         bool parse_header(size_t header_end_pos);
 
+        /*!
+         * Parses the line which begins a chunk
+         *
+         * @param str The line, without its line end
+         * @param length Where to store the length of the chunk
+         * @return True on success, false if it isn't a valid chunk length
+         */
+        static bool parse_chunk_length(const std::string &str, size_t &length);
+
         //State
         bool header_ended{false};
         size_t content_length{0};
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index bc55de6..ab9f9a1 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -42,19 +42,24 @@ namespace fr
         }
 
         //Check if chunked encoding
-        if(body.size() > MAX_HTTP_BODY_SIZE && transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
-            return fr::Socket::Status::HttpBodyTooBig;
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
             //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
+            size_t chunk_len = 1;
             while(chunk_len > 0 && chunk_offset < body.size())
             {
                 auto length_end = body.find("\r\n", chunk_offset);
+                if((length_end == std::string::npos ? body.size() - 1 : length_end) - chunk_offset > MAX_HTTP_HEADER_SIZE)
+                    return fr::Socket::Status::ParseError;
                 if(length_end == std::string::npos)
                     return fr::Socket::Status::NotEnoughData;
                 std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
+                if(!parse_chunk_length(hex_length, chunk_len))
+                    return fr::Socket::Status::ParseError;
+
+                //Ensure that body doesn't exceed maximum length
+                if(chunk_len > MAX_HTTP_BODY_SIZE - chunk_offset)
+                    return fr::Socket::Status::HttpBodyTooBig;
 
                 //If the current chunk hasn't fully been received yet then ask for more data
                 if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
@@ -66,9 +71,12 @@ namespace fr
                 chunk_offset += chunk_len;
             }
 
-            //If this chunk is 0, we have everything!
+            //If this chunk is 0, we have everything! Cut off anything after it.
             if(chunk_len == 0)
+            {
+                body.resize(chunk_offset);
                 return fr::Socket::Status::Success;
+            }
             return fr::Socket::Status::NotEnoughData;
         }
 
@@ -86,6 +94,26 @@ namespace fr
 
     }
 
+    bool HttpResponse::parse_chunk_length(const std::string &str, size_t &length)
+    {
+        //Hex digits, optionally followed by chunk extensions
+        auto digits_end = str.find_first_not_of("0123456789abcdefABCDEF");
+        if(digits_end == 0 || str.empty())
+            return false;
+        if(digits_end != std::string::npos && str[digits_end] != ';' && str[digits_end] != ' ' && str[digits_end] != '\t')
+            return false;
+
+        try
+        {
+            length = std::stoull(str, nullptr, 16);
+        }
+        catch(const std::out_of_range &e)
+        {
+            return false;
+        }
+        return true;
+    }
+
     std::string HttpResponse::construct(const std::string &host) const
     {
         //Add HTTP header
-- 
2.43.0


From e2d8b187bdc1ca0f6af6da43652fb97c433a4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 22/47] fix: skip query arguments without a value instead of
 merging them into the next one

---
 src/Http.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Http.cpp b/src/Http.cpp
index e677ca5..f439352 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -232,6 +232,11 @@ namespace fr
             {
                 unsigned long and_pos;
                 and_pos = str.find('&', read_index);
+                if(and_pos < equal_pos) //This argument doesn't have a value
+                {
+                    read_index = and_pos + 1;
+                    continue;
+                }
                 if(and_pos >= str.size())
                 {
                     size_t str_size = str.size();
-- 
2.43.0


From c2a76dcc8846146799bde87165173c7b3b4e186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 23/47] fix: keep headers with an empty value

---
 src/Http.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index f439352..c96a381 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -266,9 +266,7 @@ namespace fr
             return;
 
         unsigned long data_begin;
-        data_begin = str.find_first_not_of(' ', colon_pos + 1);
-        if(data_begin == std::string::npos)
-            return;
+        data_begin = std::min(str.find_first_not_of(' ', colon_pos + 1), str.size());
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
-- 
2.43.0


From ebdee763507d0ab18434aaa0d30c7a5a9c1a9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 24/47] fix: refuse content lengths and status codes that are
 not plain numbers

---
 include/frnetlib/Http.h | 9 +++++++++
 src/Http.cpp            | 8 ++++++++
 src/HttpRequest.cpp     | 2 +-
 src/HttpResponse.cpp    | 9 +++++++--
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 0e5a689..25cddfc 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -391,6 +391,15 @@ namespace fr
          */
         static size_t find_header_end(const std::string &str, size_t &terminator_size);
 
+        /*!
+         * Converts an unsigned decimal number, such as a content length.
+         *
+         * @throws An std::exception if there's anything but digits in it, trailing spaces aside, or if it's too large.
+         * @param str The string to convert
+         * @return The number
+         */
+        static uint64_t parse_number(const std::string &str);
+
         /*!
          * Converts a parameter list to a vector pair.
          * i.e: ?bob=10&fish=hey
diff --git a/src/Http.cpp b/src/Http.cpp
index c96a381..ab32d75 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -196,6 +196,14 @@ namespace fr
         return result;
     }
 
+    uint64_t Http::parse_number(const std::string &str)
+    {
+        auto digits_end = str.find_first_not_of("0123456789");
+        if(digits_end == 0 || str.find_first_not_of(' ', std::min(digits_end, str.size())) != std::string::npos)
+            throw std::invalid_argument("Not a number: " + str);
+        return std::stoull(str);
+    }
+
     size_t Http::find_header_end(const std::string &str, size_t &terminator_size)
     {
         for(auto line_end = str.find('\n'); line_end != std::string::npos; line_end = str.find('\n', line_end + 1))
diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index be698bd..57b1c42 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -93,7 +93,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = (size_t)std::stoull(length_header_iter->second);
+                content_length = parse_number(length_header_iter->second);
         }
         catch(const std::exception &e)
         {
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index ab9f9a1..0503c65 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -159,7 +159,12 @@ namespace fr
             if(status_begin == std::string::npos)
                 return false;
             auto end_pos = header_lines[0].find(' ', status_begin + 1);
-            status = (RequestStatus)std::stoi(header_lines[0].substr(status_begin, end_pos - status_begin));
+            std::string status_code = header_lines[0].substr(status_begin + 1, end_pos - status_begin - 1);
+            if(end_pos == std::string::npos && !status_code.empty() && status_code.back() == '\r')
+                status_code.pop_back();
+            if(status_code.find_first_not_of("0123456789") != std::string::npos)
+                return false;
+            status = (RequestStatus)std::stoi(status_code);
 
             //Get HTTP version
             static_assert((uint32_t)RequestVersion::VersionCount == 3, "Update me");
@@ -175,7 +180,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = std::stoull(length_header_iter->second);
+                content_length = parse_number(length_header_iter->second);
         }
         catch(const std::exception &e)
         {
-- 
2.43.0


From 3df9ed76aba31e493f19e80059c1a55bee1aed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 25/47] fix: send WebSocket frames without masking the caller's
 payload in place, with the shortest length form

---
 include/frnetlib/WebFrame.h |  2 +-
 src/WebFrame.cpp            | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index 5137b98..e4f2ca8 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -126,7 +126,7 @@ namespace fr
         virtual bool is_client() const = 0;
 
     private:
-        mutable std::string payload;
+        std::string payload;
         Opcode opcode;
         uint8_t final;
         static uint32_t current_mask_key;
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..779dbe0 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
@@ -56,7 +56,7 @@ namespace fr
             }
         }
 
-        //Add a masking key if we're the client
+        //Add a masking key if we're the client, and the payload encoded with it
         if(is_client())
         {
             union
@@ -69,13 +69,17 @@ namespace fr
             buffer.append((char*)&mask_union.mask_key, sizeof(mask_union.mask_key));
 
             //Encode the payload using the mask key
+            buffer.reserve(buffer.size() + payload.size());
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer.push_back(payload[a] ^ mask_union.str_mask_key[a % 4]);
             }
         }
+        else
+        {
+            buffer.append(payload);
+        }
 
-        buffer.append(payload);
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From f4afae06874d43143523111a274da00ab44a4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 26/47] fix: don't lose frames that arrive right behind the
 WebSocket handshake

---
 include/frnetlib/WebSocket.h | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..99adc63 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -63,7 +63,7 @@ namespace fr
 
             //Receive the response
             HttpResponse response;
-            status = SocketType::receive(response);
+            status = receive_handshake(response);
             if(status != Socket::Status::Success)
                 return status;
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
@@ -127,7 +127,7 @@ namespace fr
 
             //Initialise connection, receive the handshake
             HttpRequest request;
-            if(SocketType::receive(request) != Socket::Status::Success)
+            if(receive_handshake(request) != Socket::Status::Success)
                 throw std::runtime_error("Failed to receive WebSock handshake");
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
@@ -142,6 +142,32 @@ namespace fr
             response.header("Sec-WebSocket-Accept") = derived_key;
             SocketType::send(response);
         }
+
+    private:
+
+        /*!
+         * Receives the other side's half of the handshake, and not a byte
+         * more, as WebSocket frames may directly follow it.
+         *
+         * @param handshake Where to store the received HTTP message
+         * @return The status of the receive.
+         */
+        Socket::Status receive_handshake(Http &handshake)
+        {
+            Socket::Status status;
+            do
+            {
+                char byte;
+                do
+                {
+                    status = SocketType::receive_all(&byte, sizeof(byte));
+                } while(status == Socket::Status::WouldBlock);
+                if(status != Socket::Status::Success)
+                    return status;
+                status = handshake.parse(&byte, sizeof(byte));
+            } while(status == Socket::Status::NotEnoughData);
+            return status;
+        }
     };
 }
 
-- 
2.43.0


From ce82412b649db65150e03a77c1585548790505c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 27/47] fix: use 16 random bytes for the WebSocket key

---
 include/frnetlib/WebSocket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 99adc63..8f8d924 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,7 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
-#include <ctime>
+#include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -41,7 +41,11 @@ namespace fr
                 return status;
 
             //Send an upgrade request header
-            std::string websocket_key = Base64::encode(std::to_string(std::time(nullptr)));
+            std::random_device random;
+            std::string nonce;
+            while(nonce.size() < 16)
+                nonce.push_back(static_cast<char>(random()));
+            std::string websocket_key = Base64::encode(nonce);
             HttpRequest request;
             request.header("sec-websocket-key") = websocket_key;
             request.header("sec-websocket-version") = "13";
-- 
2.43.0


From 8691126f948287fc4a49465744ccf9efe6df8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 28/47] fix: leave the WebSocket disconnected when its
 handshake fails

---
 include/frnetlib/WebSocket.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 8f8d924..f54db8d 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -63,13 +63,19 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = receive_handshake(response);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
                 disconnect();
@@ -132,10 +138,16 @@ namespace fr
             //Initialise connection, receive the handshake
             HttpRequest request;
             if(receive_handshake(request) != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 throw std::runtime_error("Failed to receive WebSock handshake");
+            }
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            {
+                SocketType::close_socket();
                 throw std::runtime_error("Client isn't using the WebSock protocol");
+            }
 
             //Calculate the derived key, then send back our response
             std::string derived_key = Base64::encode(Sha1::sha1_digest(request.header("sec-websocket-key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"));
-- 
2.43.0


From bb0584924ecea55eec33cc0eca708b79c287f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 29/47] fix: mask the close frame of a WebSocket according to
 its role

---
 include/frnetlib/WebSocket.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index f54db8d..bfa5325 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -20,6 +20,7 @@ namespace fr
     {
     public:
         WebSocket()
+        : is_server(false)
         {}
 
         /*!
@@ -36,6 +37,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            is_server = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -115,7 +117,9 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
+            ClientWebFrame client_frame;
+            ServerWebFrame server_frame;
+            WebFrame &frame = is_server ? static_cast<WebFrame&>(server_frame) : client_frame;
             frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
                 SocketType::send(frame);
@@ -136,6 +140,7 @@ namespace fr
                 return;
 
             //Initialise connection, receive the handshake
+            is_server = true;
             HttpRequest request;
             if(receive_handshake(request) != Socket::Status::Success)
             {
@@ -184,6 +189,8 @@ namespace fr
             } while(status == Socket::Status::NotEnoughData);
             return status;
         }
+
+        bool is_server;
     };
 }
 
-- 
2.43.0


From 8401b60050b8e2346fd50d004df8183e0768ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 30/47] fix: recognise the WebSocket upgrade token in any
 letter case

---
 include/frnetlib/WebSocket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index bfa5325..0d3fe83 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,6 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
+#include <algorithm>
 #include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
@@ -148,7 +149,9 @@ namespace fr
                 throw std::runtime_error("Failed to receive WebSock handshake");
             }
 
-            if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            std::string upgrade = request.header("Upgrade");
+            std::transform(upgrade.begin(), upgrade.end(), upgrade.begin(), ::tolower);
+            if(upgrade != "websocket" || request.get_type() != Http::RequestType::Get)
             {
                 SocketType::close_socket();
                 throw std::runtime_error("Client isn't using the WebSock protocol");
-- 
2.43.0


From ba56eb503fc504aafd23e45e2c078a6a2041337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 31/47] fix: wait for a connection with poll, which any
 descriptor number fits

---
 include/frnetlib/NetworkEncoding.h |  1 +
 src/TcpSocket.cpp                  | 25 ++++++++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..7cd3e37 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -41,6 +41,7 @@
 #include <sys/types.h>
 #include <sys/socket.h>
 #include <netdb.h>
+#include <poll.h>
 #endif
 
 
diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..18800d3 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -2,7 +2,10 @@
 // Created by fred on 06/12/16.
 //
 
+#include <algorithm>
+#include <chrono>
 #include <iostream>
+#include <limits>
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
@@ -160,13 +163,21 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
-            timeval tv = {};
-            tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
-            tv.tv_usec = 0;
-            fd_set set = {};
-            FD_ZERO(&set);
-            FD_SET(socket_descriptor, &set);
-            ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+            auto expiry = std::chrono::steady_clock::now() + std::chrono::seconds(timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : std::min<int64_t>(timeout.count(), std::numeric_limits<int32_t>::max()));
+            pollfd poll_info = {};
+            poll_info.fd = socket_descriptor;
+            poll_info.events = POLLOUT;
+            do
+            {
+                auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(expiry - std::chrono::steady_clock::now()).count();
+                remaining = std::max<int64_t>(0, std::min<int64_t>(remaining, std::numeric_limits<int>::max()));
+#ifdef _WIN32
+                ret = WSAPoll(&poll_info, 1, static_cast<int>(remaining));
+            } while(false);
+#else
+                ret = ::poll(&poll_info, 1, static_cast<int>(remaining));
+            } while(ret < 0 && errno == EINTR); //Interrupted, wait for what's left of the timeout
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From 052776b61f8d32014c3f07c22971ae6627380f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 32/47] fix: do not leak the descriptors of failed connection
 attempts

---
 include/frnetlib/NetworkEncoding.h |  2 +-
 src/TcpSocket.cpp                  | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 7cd3e37..a58d3cf 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -31,7 +31,7 @@
 #endif
 
 #define closesocket(x) close(x)
-#define INVALID_SOCKET 0
+#define INVALID_SOCKET (-1)
 #define SOCKET_ERROR (-1)
 
 #include <unistd.h>
diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 18800d3..f283571 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -114,6 +114,9 @@ namespace fr
 
     Socket::Status TcpSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
     {
+        //Drop any connection that's already open
+        TcpSocket::close_socket();
+
         //Setup required structures
         int ret = 0;
         addrinfo *info;
@@ -137,7 +140,8 @@ namespace fr
         addrinfo *c;
         for(c = info; c != nullptr; c = c->ai_next)
         {
-            //Get the socket for this entry
+            //Get the socket for this entry, in place of that of the last attempt
+            TcpSocket::close_socket();
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
             if(socket_descriptor == INVALID_SOCKET)
                 continue;
@@ -194,11 +198,17 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            TcpSocket::close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            TcpSocket::close_socket();
             return Socket::Status::Error;
+        }
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From 8b233b29a2beb97ee1b4de5ac8108c684d7eac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 33/47] fix: close the descriptor that an adopted one replaces,
 and report the blocking mode of the new one

---
 src/TcpSocket.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f283571..eee18c4 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -108,7 +108,18 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+
+        //Drop the connection which this one replaces
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            TcpSocket::close_socket();
+        socket_descriptor = new_descriptor;
+#ifndef _WIN32
+        int flags = fcntl(socket_descriptor, F_GETFL, 0);
+        is_blocking = flags < 0 || (flags & O_NONBLOCK) == 0;
+#else
+        is_blocking = true;
+#endif
         reconfigure_socket();
     }
 
@@ -211,6 +222,7 @@ namespace fr
         }
 
         //Update state now we've got a valid socket descriptor
+        is_blocking = true;
         set_remote_address(address + ":" + port);
         reconfigure_socket();
 
-- 
2.43.0


From 099417f9e5caf8bb476389af5efa4a38d7b8b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 34/47] fix: do not leak the descriptors of a listener

---
 include/frnetlib/TcpListener.h | 7 ++++++-
 src/TcpListener.cpp            | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..8a08aab 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,12 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept
+    : Listener(o),
+      socket_descriptor(o.socket_descriptor)
+    {
+        o.socket_descriptor = -1; //It's ours to close now
+    }
 
     /*!
      * Listens to the given port for connections
diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..2ac39f9 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -25,6 +25,9 @@ namespace fr
 
     Socket::Status TcpListener::listen(const std::string &port)
     {
+        //Stop listening to whatever we were before
+        close_socket();
+
         addrinfo *info;
         addrinfo hints{};
 
@@ -53,12 +56,14 @@ namespace fr
             //Set address re-use option if not on Windows (potentially sketchy)
             if(setsockopt(socket_descriptor, SOL_SOCKET, SO_REUSEADDR, (char*)&yes, sizeof(int)) == SOCKET_ERROR)
             {
+                close_socket();
                 continue;
             }
 
             //Set port re-use option
             if(setsockopt(socket_descriptor, SOL_SOCKET, SO_REUSEPORT, (char*)&yes, sizeof(int)) == SOCKET_ERROR)
             {
+                close_socket();
                 continue;
             }
 #endif
@@ -72,7 +77,7 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
+                close_socket();
                 continue;
             }
             break;
@@ -91,6 +96,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From 735d85821e07d4a56da87d8579837a50ecb048dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 35/47] fix: try the next address when one can't be listened on

---
 src/TcpListener.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index 2ac39f9..3cb401f 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -44,6 +44,7 @@ namespace fr
 
         //Try each of the results until we listen successfully
         addrinfo *c = nullptr;
+        bool bound = false;
         for(c = info; c != nullptr; c = c->ai_next)
         {
             //Attempt to connect
@@ -80,24 +81,24 @@ namespace fr
                 close_socket();
                 continue;
             }
+            bound = true;
+
+            //Listen to socket
+            if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
+            {
+                close_socket();
+                continue;
+            }
             break;
         }
 
         //We're done with this now, cleanup
         freeaddrinfo(info);
 
-        //Check that we've actually bound
+        //Check that we're actually bound and listening
         if(c == nullptr)
         {
-            return Socket::Status::BindFailed;
-        }
-
-
-        //Listen to socket
-        if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
-        {
-            close_socket();
-            return Socket::Status::ListenFailed;
+            return bound ? Socket::Status::ListenFailed : Socket::Status::BindFailed;
         }
         return Socket::Status::Success;
     }
-- 
2.43.0


From 07d2dbbe596b3a66e94d22b7fa5514b1f76796a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 36/47] fix: let sockets that have been disconnected be removed
 from a selector

---
 src/SocketSelector.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..b2fbbd9 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -2,6 +2,7 @@
 // Created by fred on 09/12/16.
 //
 
+#include <algorithm>
 #include <thread>
 #include <mutex>
 #include "frnetlib/SocketSelector.h"
@@ -83,7 +84,19 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //If the socket has been disconnected since, then its registration is gone already, and the
+        //descriptor might be another member's by now, whose registration is to be left alone.
+        const int32_t descriptor = iter->second.descriptor;
+        bool reused = false;
+        if(socket->get_socket_descriptor() != descriptor)
+        {
+            reused = std::any_of(added_sockets.begin(), added_sockets.end(), [descriptor](const std::pair<const uintptr_t, Opaque> &member)
+            {
+                return member.second.descriptor == descriptor && member.second.socket->get_socket_descriptor() == descriptor;
+            });
+        }
+
+        if(!reused && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 833c89d269fa9863c97f896846d03fdc78a1dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 37/47] fix: do not fail to remove a disconnected socket whose
 descriptor is a file now

---
 src/SocketSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index b2fbbd9..998d5f2 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -85,7 +85,7 @@ namespace fr
         }
 
         //If the socket has been disconnected since, then its registration is gone already, and the
-        //descriptor might be another member's by now, whose registration is to be left alone.
+        //descriptor might be a file (EPERM) or another member's by now, whose registration is to be left alone.
         const int32_t descriptor = iter->second.descriptor;
         bool reused = false;
         if(socket->get_socket_descriptor() != descriptor)
@@ -96,7 +96,7 @@ namespace fr
             });
         }
 
-        if(!reused && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
+        if(!reused && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF && errno != EPERM)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 8f633f3804d647ddc827609b4012e1bf5c2100c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 38/47] fix: do not race on the WebSocket mask key between
 threads

---
 include/frnetlib/WebFrame.h | 3 ++-
 src/WebFrame.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index e4f2ca8..a68bd65 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -6,6 +6,7 @@
 #define FRNETLIB_WEBFRAME_H
 
 
+#include <atomic>
 #include <ctime>
 #include "Sendable.h"
 
@@ -129,7 +130,7 @@ namespace fr
         std::string payload;
         Opcode opcode;
         uint8_t final;
-        static uint32_t current_mask_key;
+        static std::atomic<uint32_t> current_mask_key;
     };
 
     class ClientWebFrame : public fr::WebFrame {
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 779dbe0..d06ca24 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -7,7 +7,7 @@
 
 namespace fr
 {
-    uint32_t WebFrame::current_mask_key = static_cast<uint32_t>(std::time(nullptr));
+    std::atomic<uint32_t> WebFrame::current_mask_key{static_cast<uint32_t>(std::time(nullptr))};
 
     WebFrame::WebFrame(WebFrame::Opcode type)
     : opcode(type),
-- 
2.43.0


From 79c165de425982aa0c623bec6a30315663518809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 39/47] fix: make SSLSocket::set_blocking set the requested
 mode

---
 src/SSLSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..2e0b80e 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -245,7 +245,10 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        if(!connected())
+            return fr::Socket::Status::Error;
+
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From c22025db55e9865bdb329f1e169dbec760d0c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 40/47] fix: apply timeouts and blocking mode when sending and
 receiving through SSLSocket

A non-blocking receive without data spun instead of returning WouldBlock, the
receive timeout was never applied, interruptions were reported as timeouts,
resumed sends started again from the beginning, the blocking mode of the last
connection was reported for the next, and an orderly close of the peer was
reported as an error.
---
 include/frnetlib/SSLSocket.h |   1 -
 src/SSLSocket.cpp            | 157 ++++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 66 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 322d205..5452e57 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -146,7 +146,6 @@ namespace fr
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
-        uint32_t receive_timeout;
         bool is_blocking;
     };
 }
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 2e0b80e..a0c065e 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -35,6 +35,30 @@ void web_free(mbedtls_net_context *ctx)
     delete ctx;
 }
 
+//As mbedtls_net_send(), but retries when interrupted and recognises an expired send timeout
+static int net_send(void *ctx, const unsigned char *data, size_t size)
+{
+    int ret = 0;
+    do
+    {
+        errno = 0;
+        ret = mbedtls_net_send(ctx, data, size);
+    } while(ret == MBEDTLS_ERR_SSL_WANT_WRITE && errno == EINTR);
+    return ret == MBEDTLS_ERR_NET_SEND_FAILED && errno == EWOULDBLOCK ? MBEDTLS_ERR_SSL_TIMEOUT : ret;
+}
+
+//As mbedtls_net_recv(), but retries when interrupted and recognises an expired receive timeout
+static int net_recv(void *ctx, unsigned char *data, size_t size)
+{
+    int ret = 0;
+    do
+    {
+        errno = 0;
+        ret = mbedtls_net_recv(ctx, data, size);
+    } while(ret == MBEDTLS_ERR_SSL_WANT_READ && errno == EINTR);
+    return ret == MBEDTLS_ERR_NET_RECV_FAILED && errno == EWOULDBLOCK ? MBEDTLS_ERR_SSL_TIMEOUT : ret;
+}
+
 namespace fr
 {
     SSLSocket::SSLSocket(std::shared_ptr<SSLContext> ssl_context_) noexcept
@@ -42,7 +66,6 @@ namespace fr
        ssl_socket_descriptor(nullptr, web_free),
        ssl(nullptr, ssl_free),
        should_verify(true),
-       receive_timeout(0),
        is_blocking(true)
     {
         //Initialise mbedtls structures
@@ -66,28 +89,30 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
-        ssize_t status = 0;
-
         while(sent < size)
         {
-            status = mbedtls_ssl_write(ssl.get(), (const unsigned char *)data + sent, size - sent);
-            if(status < 0)
+            int status = mbedtls_ssl_write(ssl.get(), (const unsigned char *)data + sent, size - sent);
+            if(status >= 0)
             {
-                if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
+                sent += status;
+                continue;
+            }
+
+            if(status == MBEDTLS_ERR_SSL_TIMEOUT)
+            {
+                return Socket::Status::Timeout;
+            }
+            if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
+            {
+                if(is_blocking)
                 {
-                    if(is_blocking)
-                    {
-                        return Socket::Status::Timeout;
-                    }
-                    return Socket::Status::WouldBlock;
+                    continue;
                 }
-
-                errno = status;
-                return Socket::Status::SSLError;
+                return Socket::Status::WouldBlock;
             }
 
-            sent += status;
+            errno = status;
+            return Socket::Status::SSLError;
         }
 
         return Socket::Status::Success;
@@ -95,66 +120,39 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
-        ssize_t status = 0;
-        if(receive_timeout == 0)
+        received = 0;
+        int status = 0;
+        do
         {
-            do
+            status = mbedtls_ssl_read(ssl.get(), (unsigned char *)data, data_size);
+            if(status == 0 || status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
             {
-                status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-                if(status == 0)
-                {
-                    return Socket::Status::Disconnected;
-                }
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
-                    {
-                        if(is_blocking)
-                        {
-                            return Socket::Status::Timeout;
-                        }
-                        continue;
-                    }
+                return Socket::Status::Disconnected;
+            }
 
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
-        }
-        else
-        {
-            do
+            if(status < 0)
             {
-                status = mbedtls_net_recv_timeout(ssl.get(), (unsigned char *)data, data_size, receive_timeout);
-                if(status == 0)
+                if(status == MBEDTLS_ERR_SSL_TIMEOUT)
                 {
-                    return Socket::Status::Disconnected;
+                    return Socket::Status::Timeout;
                 }
-
-                if(status < 0)
+                if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
                 {
-                    if(status == MBEDTLS_ERR_SSL_TIMEOUT)
-                    {
-                        return Socket::Status::WouldBlock;
-                    }
-
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ)
+                    if(is_blocking)
                     {
-                        continue; //try again, interrupted before anything could be received
+                        continue;
                     }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
+                    return Socket::Status::WouldBlock;
                 }
-                break;
-            } while(true);
-        }
 
+                errno = status;
+                return Socket::Status::SSLError;
+            }
+            break;
+        } while(true);
 
         received = static_cast<size_t>(status);
         return Socket::Status::Success;
-
     }
 
     Socket::Status SSLSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
@@ -199,7 +197,7 @@ namespace fr
             return Socket::Status::SSLError;
         }
 
-        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
+        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
 
         //Do SSL handshake
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
@@ -221,6 +219,7 @@ namespace fr
         }
 
         //Update state
+        is_blocking = true;
         reconfigure_socket();
 
         return Socket::Status::Success;
@@ -234,8 +233,21 @@ namespace fr
     void SSLSocket::set_descriptor(void *descriptor)
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
-        if(descriptor)
-            reconfigure_socket();
+        if(!descriptor)
+        {
+            ssl = nullptr;
+            return;
+        }
+
+        if(ssl)
+            mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
+#ifndef _WIN32
+        int flags = fcntl(get_socket_descriptor(), F_GETFL, 0);
+        is_blocking = flags < 0 || (flags & O_NONBLOCK) == 0;
+#else
+        is_blocking = true;
+#endif
+        reconfigure_socket();
     }
 
     void SSLSocket::verify_certificates(bool should_verify_)
@@ -270,6 +282,17 @@ namespace fr
 #ifndef _WIN32
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), SOL_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
+
+        //Apply receive timeout
+        struct timeval tv = {};
+        tv.tv_sec = get_receive_timeout() / 1000;
+        tv.tv_usec = (get_receive_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
+
+        //Apply send timeout
+        tv.tv_sec = get_send_timeout() / 1000;
+        tv.tv_usec = (get_send_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof tv);
 #else
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), IPPROTO_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
@@ -278,6 +301,10 @@ namespace fr
         //Apply receive timeout
         DWORD timeout_dword = static_cast<DWORD>(get_receive_timeout());
         setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&timeout_dword, sizeof timeout_dword);
+
+        //Apply send timeout
+        timeout_dword = static_cast<DWORD>(get_send_timeout());
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&timeout_dword, sizeof timeout_dword);
 #endif
     }
 
-- 
2.43.0


From 452b6cf511c08ec536e8a4336b6f76ffa0c6543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 41/47] fix: keep the configuration of an SSLListener for the
 sockets accepted from it

An accepted SSLSocket used the listener's configuration, certificate and key
after the listener was destroyed.
---
 include/frnetlib/SSLListener.h | 31 ++++++++++++++++++++++++++-----
 include/frnetlib/SSLSocket.h   |  4 +++-
 src/SSLListener.cpp            | 25 +++++++++----------------
 src/SSLSocket.cpp              |  4 +++-
 4 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/include/frnetlib/SSLListener.h b/include/frnetlib/SSLListener.h
index 1a428b6..fb162fd 100644
--- a/include/frnetlib/SSLListener.h
+++ b/include/frnetlib/SSLListener.h
@@ -82,12 +82,33 @@ namespace fr
         int32_t get_socket_descriptor() const override;
 
     private:
-        mbedtls_net_context listen_fd;
-        mbedtls_ssl_config conf;
-        mbedtls_x509_crt srvcert;
-        mbedtls_pk_context pkey;
+        //Used by the accepted sockets too, which might outlive the listener
+        struct Config
+        {
+            explicit Config(std::shared_ptr<SSLContext> ssl_context_)
+            : ssl_context(std::move(ssl_context_))
+            {
+                mbedtls_ssl_config_init(&conf);
+                mbedtls_x509_crt_init(&srvcert);
+                mbedtls_pk_init(&pkey);
+            }
+            Config(const Config &) = delete;
+            void operator=(const Config &) = delete;
+            ~Config()
+            {
+                mbedtls_x509_crt_free(&srvcert);
+                mbedtls_pk_free(&pkey);
+                mbedtls_ssl_config_free(&conf);
+            }
+
+            mbedtls_ssl_config conf;
+            mbedtls_x509_crt srvcert;
+            mbedtls_pk_context pkey;
+            std::shared_ptr<SSLContext> ssl_context;
+        };
 
-        std::shared_ptr<SSLContext> ssl_context;
+        mbedtls_net_context listen_fd;
+        std::shared_ptr<Config> config;
     };
 
 }
diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 5452e57..4e109cb 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -79,8 +79,9 @@ namespace fr
          * Set the SSL context
          *
          * @param context The SSL context to use
+         * @param owner Kept until the context is no longer used, owns what the context refers to
          */
-        void set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context);
+        void set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context, std::shared_ptr<void> owner = nullptr);
 
         /*!
          * Sets if the socket should verify the endpoints
@@ -143,6 +144,7 @@ namespace fr
 
         std::shared_ptr<SSLContext> ssl_context;
         std::unique_ptr<mbedtls_net_context, decltype(&mbedtls_net_free)> ssl_socket_descriptor;
+        std::shared_ptr<void> ssl_owner;
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..56801d3 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -16,41 +16,37 @@
 namespace fr
 {
     SSLListener::SSLListener(std::shared_ptr<SSLContext> ssl_context_, const std::string &pem_path, const std::string &private_key_path)
-            : ssl_context(std::move(ssl_context_))
+            : config(std::make_shared<Config>(std::move(ssl_context_)))
     {
         //Initialise SSL objects required
         listen_fd.fd = -1;
-        mbedtls_ssl_config_init(&conf);
-        mbedtls_x509_crt_init(&srvcert);
-        mbedtls_pk_init(&pkey);
-
         int error = 0;
 
         //Load public key
-        error = mbedtls_x509_crt_parse_file(&srvcert, pem_path.c_str());
+        error = mbedtls_x509_crt_parse_file(&config->srvcert, pem_path.c_str());
         if(error != 0)
         {
             throw std::runtime_error("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
         }
 
         //Load private key
-        error = mbedtls_pk_parse_keyfile(&pkey, private_key_path.c_str(), 0);
+        error = mbedtls_pk_parse_keyfile(&config->pkey, private_key_path.c_str(), 0);
         if(error != 0)
         {
             throw std::runtime_error("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
         }
 
         //Setup data structures and apply settings
-        error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
+        error = mbedtls_ssl_config_defaults(&config->conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
         if(error != 0)
         {
             throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
-        mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
-        mbedtls_ssl_conf_ca_chain(&conf, srvcert.next, nullptr);
+        mbedtls_ssl_conf_rng(&config->conf, mbedtls_ctr_drbg_random, &config->ssl_context->ctr_drbg);
+        mbedtls_ssl_conf_ca_chain(&config->conf, config->srvcert.next, nullptr);
 
         //Apply loaded certs
-        error = mbedtls_ssl_conf_own_cert(&conf, &srvcert, &pkey);
+        error = mbedtls_ssl_conf_own_cert(&config->conf, &config->srvcert, &config->pkey);
         if(error != 0)
         {
             std::cout << "Failed to set certificate: " << error << std::endl;
@@ -61,9 +57,6 @@ namespace fr
     SSLListener::~SSLListener()
     {
         close_socket();
-        mbedtls_x509_crt_free(&srvcert);
-        mbedtls_pk_free(&pkey);
-        mbedtls_ssl_config_free(&conf);
         mbedtls_net_free(&listen_fd);
     }
 
@@ -97,7 +90,7 @@ namespace fr
         mbedtls_ssl_init(ssl.get());
         mbedtls_net_init(client_fd.get());
         auto free_contexts = [&](){mbedtls_ssl_free(ssl.get()); mbedtls_net_free(client_fd.get());};
-        if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
+        if((error = mbedtls_ssl_setup(ssl.get(), &config->conf)) != 0)
         {
             free_contexts();
             return Socket::Status::Error;
@@ -141,7 +134,7 @@ namespace fr
             strcpy(client_printable_addr, "unknown");
         }
 
-        client.set_ssl_context(std::move(ssl));
+        client.set_ssl_context(std::move(ssl), config);
         client.set_descriptor(client_fd.release());
         client.set_remote_address(client_printable_addr);
         return Socket::Status::Success;
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index a0c065e..02a9c34 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -159,6 +159,7 @@ namespace fr
     {
         //Initialise mbedtls stuff
         ssl.reset(ssl_create());
+        ssl_owner = nullptr;
         ssl_socket_descriptor.reset(net_create());
 
         //Due to mbedtls not supporting connect timeouts, we have to use an fr::TcpSocket to
@@ -225,9 +226,10 @@ namespace fr
         return Socket::Status::Success;
     }
 
-    void SSLSocket::set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context)
+    void SSLSocket::set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context, std::shared_ptr<void> owner)
     {
         ssl.reset(context.release());
+        ssl_owner = std::move(owner);
     }
 
     void SSLSocket::set_descriptor(void *descriptor)
-- 
2.43.0


From 568b22917a5e3fadb2fe30453c3911ef3a1baf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 42/47] fix: parse PEM certificates loaded from memory

---
 include/frnetlib/SSLContext.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index cf39e45..4554b87 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -57,7 +57,9 @@ namespace fr
          */
         bool load_ca_certs_from_memory(const std::string &ca_certs)
         {
-            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size()) == 0;
+            //PEM is only recognised if the size includes the terminator
+            bool is_pem = ca_certs.find("-----BEGIN CERTIFICATE-----") != std::string::npos;
+            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size() + is_pem) == 0;
         }
 
         /*!
-- 
2.43.0


From a87ef8cf48afbf4e57dd2612015f743ba1ef35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:56 +0000
Subject: [PATCH 43/47] fix: leave an SSLSocket unconnected when connecting
 fails

---
 src/SSLSocket.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 02a9c34..55181e8 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -168,7 +168,10 @@ namespace fr
             fr::TcpSocket socket;
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
+            {
+                close_socket();
                 return ret;
+            }
             ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
             socket.set_descriptor(nullptr);
@@ -178,6 +181,7 @@ namespace fr
         int error = 0;
         if((error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -188,12 +192,14 @@ namespace fr
 
         if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
 
         if((error = mbedtls_ssl_set_hostname(ssl.get(), address.c_str())) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -205,6 +211,7 @@ namespace fr
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
             {
+                close_socket();
                 errno = error;
                 return Socket::Status::SSLError;
             }
@@ -215,6 +222,7 @@ namespace fr
         {
             if(mbedtls_ssl_get_verify_result(ssl.get()) != 0)
             {
+                close_socket();
                 return Socket::Status::VerificationFailed;
             }
         }
-- 
2.43.0


From c9e33492134a909bacee06b85f1dcff777ef537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 44/47] fix: apply the connect timeout to the TLS handshake

---
 src/SSLSocket.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 55181e8..2473c56 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -3,11 +3,14 @@
 //
 
 #include "frnetlib/SSLSocket.h"
+#include <algorithm>
+#include <limits>
 #include <memory>
 #include <utility>
 
 #include <mbedtls/net_sockets.h>
 #include <frnetlib/SSLSocket.h>
+#define DEFAULT_SOCKET_TIMEOUT 20
 
 mbedtls_net_context *net_create()
 {
@@ -206,7 +209,14 @@ namespace fr
 
         mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), net_send, net_recv, nullptr);
 
-        //Do SSL handshake
+        //Do SSL handshake, without blocking so that the timeout can be applied to all of it
+        if((error = mbedtls_net_set_nonblock(ssl_socket_descriptor.get())) != 0)
+        {
+            close_socket();
+            errno = error;
+            return Socket::Status::SSLError;
+        }
+        auto expiry = std::chrono::steady_clock::now() + std::chrono::seconds(timeout.count() <= 0 ? DEFAULT_SOCKET_TIMEOUT : std::min<int64_t>(timeout.count(), std::numeric_limits<int32_t>::max()));
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
@@ -215,6 +225,28 @@ namespace fr
                 errno = error;
                 return Socket::Status::SSLError;
             }
+
+            auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(expiry - std::chrono::steady_clock::now()).count();
+            if(remaining <= 0)
+            {
+                close_socket();
+                return Socket::Status::Timeout;
+            }
+            pollfd poll_info = {};
+            poll_info.fd = ssl_socket_descriptor->fd;
+            poll_info.events = error == MBEDTLS_ERR_SSL_WANT_READ ? POLLIN : POLLOUT;
+            remaining = std::min<int64_t>(remaining, std::numeric_limits<int>::max());
+#ifdef _WIN32
+            WSAPoll(&poll_info, 1, static_cast<int>(remaining));
+#else
+            ::poll(&poll_info, 1, static_cast<int>(remaining));
+#endif
+        }
+        if((error = mbedtls_net_set_block(ssl_socket_descriptor.get())) != 0)
+        {
+            close_socket();
+            errno = error;
+            return Socket::Status::SSLError;
         }
 
         //Verify server certificate
-- 
2.43.0


From 51cea95d7b971a90e7f50343942b8542bf2308f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 45/47] fix: connect SSL sockets with the chosen IP version

---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 2473c56..2feb381 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -169,6 +169,7 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            socket.set_inet_version(ai_family == AF_INET ? IP::v4 : ai_family == AF_INET6 ? IP::v6 : IP::any);
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
             {
-- 
2.43.0


From fecdcca66e3e3d882b67615593afe81ca985ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 46/47] fix: selector waits longer than INT_MAX milliseconds
 end early

---
 src/SocketSelector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 998d5f2..3df8da9 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <limits>
 #include <thread>
 #include <mutex>
 #include "frnetlib/SocketSelector.h"
@@ -57,7 +58,9 @@ namespace fr
     SocketSelector::wait(std::chrono::milliseconds timeout)
     {
         static thread_local epoll_event events[100];
-        int event_count = epoll_wait(epoll_fd, events, 100, timeout.count());
+        //Wait for as long as possible if the timeout is more than epoll_wait can take
+        auto capped_timeout = std::min<int64_t>(timeout.count(), std::numeric_limits<int>::max());
+        int event_count = epoll_wait(epoll_fd, events, 100, static_cast<int>(capped_timeout));
         if(event_count < 0)
         {
             if(errno == EINTR)
-- 
2.43.0


From 88a233a40ea2c63bd5fdce5b4c09ad18a9b0cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 47/47] fix: received header values keep trailing blanks and
 end at the first tab or non-ASCII byte

---
 src/Http.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index ab32d75..a502bda 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -273,19 +273,19 @@ namespace fr
         if(colon_pos == std::string::npos)
             return;
 
-        unsigned long data_begin;
-        data_begin = std::min(str.find_first_not_of(' ', colon_pos + 1), str.size());
-
-        size_t data_len = 0;
+        //The value may be surrounded by blanks which aren't part of it
+        size_t data_begin = std::min(str.find_first_not_of(" \t", colon_pos + 1), str.size());
+        size_t data_end = data_begin;
         for(size_t a = data_begin; a < str.size(); a++)
         {
-            if(str[a] >= 32 && str[a] <= 126)
-                data_len++;
-            else
+            auto c = static_cast<unsigned char>(str[a]);
+            if((c < 32 && c != '\t') || c == 127)
                 break;
+            if(c != ' ' && c != '\t')
+                data_end = a + 1;
         }
         std::string header_name = str.substr(0, colon_pos);
-        std::string header_value = str.substr(data_begin, data_len);
+        std::string header_value = str.substr(data_begin, data_end - data_begin);
         std::transform(header_name.begin(), header_name.end(), header_name.begin(), ::tolower);
 
         //Check if it contains transfer encoding, we store this in a separate set
-- 
2.43.0

