From 2100e659ec22caacd92d6140d61029e61fe30a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 01/59] fix: use of a dangling bracket string in the redirected
 output

---
 src/simpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index afcec54..ac37b87 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -43,7 +43,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 void SimpleOutput::writeContainer(const JSonContainer *item, bool prependComma)
 {
     std::string _indent = getIndent();
-    const char *brackets = item->stringify().c_str();
+    const std::string brackets = item->stringify();
     bool first = true;
 
     out << _indent << (prependComma ? "," : "") << std::string(1, brackets[0]);
-- 
2.43.0


From f9c7a185adabe3e76be7f11704269478359b2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 02/59] fix: quote and escape the strings of the redirected
 output

---
 src/simpleOutput.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index ac37b87..278258a 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -10,9 +10,26 @@
 SimpleOutput::SimpleOutput(std::ostream &output, const Params &p): out(output), params(p), indent(0)
 { }
 
+static std::string quote(const std::string &str)
+{
+    static const char hex[] = "0123456789abcdef";
+    std::string result = "\"";
+
+    for (char c : str)
+    {
+        if (c == '"')
+            result += "\\\"";
+        else if ((unsigned char) c < 32)
+            (result += "\\u00") += { hex[c >> 4], hex[c & 15] };
+        else
+            result += c;
+    }
+    return result +'"';
+}
+
 void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependComma)
 {
-    out << getIndent() << (prependComma ? ",\"" : "\"") << item->stringify() << "\":";
+    out << getIndent() << (prependComma ? "," : "") << quote(item->stringify()) << ":";
 
     if (dynamic_cast<const JSonContainer *> (**item))
     {
@@ -22,7 +39,10 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
     }
     else
     {
-        out << (**item)->stringify();
+        if (dynamic_cast<const JSonPrimitive<std::string>*> (**item))
+            out << quote((**item)->stringify());
+        else
+            out << (**item)->stringify();
         if (!params.compressed())
             out << std::endl;
     }
@@ -33,7 +53,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
     out << getIndent() << (prependComma ? "," : "");
 
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
-        out << "\"" << item->stringify() << "\"";
+        out << quote(item->stringify());
     else
         out << item->stringify();
     if (!params.compressed())
-- 
2.43.0


From 2116adda66fbbe882ac9566baccc39dd9c91be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 03/59] fix: keep escaped backslashes distinct from other
 escapes

---
 src/streamConsumer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2421ec1..bf9ecad 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -170,7 +170,7 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
 
 bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
 {
-    if (c == '\\' || c == '"' || c == '/')
+    if (c == '"' || c == '/')
         buf.write(&c, 1);
     else if (c == 'u')
     {
@@ -193,7 +193,7 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
             }
         }
     }
-    else if (c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
+    else if (c == '\\' || c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
         buf.write("\\", 1).write(&c, 1);
     else if (params && params->isStrict())
         throw JsonEscapedException(c, stream.tellg(), history);
-- 
2.43.0


From bed08f61f8ef7629fd82aa723a08a1b45554685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 04/59] fix: \u escapes of surrogates and control characters

---
 src/streamConsumer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index bf9ecad..dc41427 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -369,6 +369,19 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf)
 {
     unsigned short uni = hexbyte<unsigned short>(unicode, 4);
+
+    // These cannot appear unescaped, keep them as they are read from escaped input
+    if (uni < 32 || uni == '\\' || uni == 127 || (uni >= 0xD800 && uni <= 0xDFFF))
+    {
+        static const std::string escaped = "\b\t\n\f\r\\";
+        const size_t pos = uni <= '\\' ? escaped.find((char) uni) : std::string::npos;
+
+        if (pos != std::string::npos)
+            buf << '\\' << "btnfr\\"[pos];
+        else
+            buf.write("\\u", 2).write(unicode, 4);
+        return;
+    }
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
     std::string unichar = converter.to_bytes(uni);
     buf.write(unichar.c_str(), unichar.size());
-- 
2.43.0


From b9f106884a3f9fb1d551318e60aae841c6c89ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 05/59] fix: column number of the errors found on the first
 line

---
 include/wrappedBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 11d5897..939ce35 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -60,7 +60,7 @@ class WrappedBuffer
 };
 
 template<typename T, int SIZE>
-WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1)
+WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1), written(0)
 { }
 
 template<typename T, int SIZE>
-- 
2.43.0


From 4642918035c4a4bf84cbd1f729faf4afc3ee6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 06/59] fix: line breaks and out of bounds read when several
 characters are added to the history

---
 src/linearHistory.cpp | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 93f8dae..797ca33 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -31,29 +31,7 @@ void LinearHistory::put(char item)
 
 void LinearHistory::put(char items[], unsigned int count)
 {
-    if (willReset)
-    {
-        reset();
-        line++;
-        willReset = false;
-    }
     for (unsigned int i=0; i < count; ++i)
-    {
-        if (items[i] == '\n')
-        {
-            if (i < count -1)
-            {
-                willReset = true;
-                put(&items[i +1], count -i);
-                return;
-            }
-            else
-            {
-                willReset = true;
-                return;
-            }
-        }
-    }
-    WrappedBuffer<char, ERROR_HISTORY_LEN>::put(items, count);
+        put(items[i]);
 }
 
-- 
2.43.0


From 60017cb74fe83802441a5ef04528015db7208330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 07/59] fix: CRLF counted as two lines in error messages

---
 include/linearHistory.hh | 4 ++++
 src/linearHistory.cpp    | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index 457b0c5..6ff3e8d 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -32,6 +32,10 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
          * True if new line found, and should reset at new put
         **/
         bool willReset;
+        /**
+         * True if last character was a carriage return
+        **/
+        bool lastWasCr;
         /**
          * Current line
         **/
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 797ca33..ce1cb05 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -6,7 +6,7 @@
 
 #include "linearHistory.hh"
 
-LinearHistory::LinearHistory(): willReset(false), line(1)
+LinearHistory::LinearHistory(): willReset(false), lastWasCr(false), line(1)
 { }
 
 LinearHistory::~LinearHistory()
@@ -17,6 +17,12 @@ unsigned int LinearHistory::currentLine() const
 
 void LinearHistory::put(char item)
 {
+    if (item == '\n' && lastWasCr) // CRLF is only one line break
+    {
+        lastWasCr = false;
+        return;
+    }
+    lastWasCr = (item == '\r');
     if (willReset)
     {
         reset();
-- 
2.43.0


From 9fe921b8de7f3ed1f41c8ce35215f166ac83dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 08/59] fix: read of uninitialized parameters

---
 src/streamConsumer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index dc41427..41340e2 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -12,7 +12,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -231,7 +231,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
             read++;
             rawInput += c;
         }
-        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && params->isStrict()))
+        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && (!params || params->isStrict())))
             throw JsonFormatException(stream.tellg(), history);
         else if (buf.str() == "true")
         {
@@ -326,7 +326,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
     }
     for (int i =1; i < 4; ++i)
         _bufLower += std::tolower(_buf[i]);
-    if (_bufLower == "null" && (_bufLower == buf.str() || !params->isStrict()))
+    if (_bufLower == "null" && (_bufLower == buf.str() || (params && !params->isStrict())))
     {
         if (buf.str() != "null")
             warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-- 
2.43.0


From 24f1c304fdf786e8891473df0ea4ea38b7251be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 09/59] fix: end of file written as a character in error
 messages

---
 src/streamConsumer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 41340e2..88ee0e2 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -144,6 +144,8 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
+        if (!stream.good())
+            break;
         history.put(c);
 
         if (!escaped)
@@ -317,7 +319,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
 
     stream.read(&_buf[1], 3);
     buf.write(_buf, 4);
-    history.put(&_buf[1], 3);
+    history.put(&_buf[1], stream.gcount());
     if (!stream.good())
     {
         buf.str("");
@@ -340,6 +342,8 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
     while (stream.good())
     {
         char c = stream.get();
+        if (!stream.good())
+            break;
         history.put(c);
 
         //!InString, !inbool
-- 
2.43.0


From 45d94d66523e99480e39c7600a0dc9f651dc9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 10/59] fix: character following a number or a boolean read
 twice

---
 src/streamConsumer.cpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 88ee0e2..9ccccf3 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -221,34 +221,40 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
     //TODO batch-get 3 char, then do that
     while (stream.good())
     {
-        const char c = stream.get();
+        // Character following the value is not consumed
+        const int next = stream.peek();
+        const char c = next;
         const char cLower = std::tolower(c);
-        history.put(c);
 
-        if (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u')
+        if (next != EOF && (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u'))
         {
+            stream.get();
+            history.put(c);
             if ((read >= 5 && firstLowerChar == 'f') || (read >= 4 && firstLowerChar == 't'))
                 throw JsonFormatException(stream.tellg(), history);
             buf.write(&cLower, 1);
             read++;
             rawInput += c;
         }
-        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && (!params || params->isStrict())))
+        else if (next == EOF && buf.str() != "true" && buf.str() != "false")
+            break;
+        else if (buf.str() != "true" && buf.str() != "false")
+        {
+            history.put(c);
+            throw JsonFormatException(stream.tellg(), history);
+        }
+        else if (buf.str() != rawInput && (!params || params->isStrict()))
             throw JsonFormatException(stream.tellg(), history);
         else if (buf.str() == "true")
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
-            stream.unget();
             return new JSonPrimitive<bool>(parent, true);
         }
         else if (buf.str() == "false")
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
-            stream.unget();
             return new JSonPrimitive<bool>(parent, false);
         }
         else if (ignoreChar(c))
@@ -263,7 +269,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
-    bool numberIsDouble = false;
+    bool numberIsDouble = (firstChar == '.');
 
     buf.str("");
     buf.clear();
@@ -271,20 +277,19 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
 
     while (stream.good())
     {
-        char c = stream.get();
-        history.put(c);
+        // Character following the value is not consumed
+        const int next = stream.peek();
+        const char c = next;
 
-        if (c >= '0' && c <= '9')
-            buf.write(&c, 1);
-        else if (c == '.' && !numberIsDouble)
+        if (next != EOF && ((c >= '0' && c <= '9') || (c == '.' && !numberIsDouble)))
         {
-            numberIsDouble = true;
+            stream.get();
+            history.put(c);
+            numberIsDouble |= (c == '.');
             buf.write(&c, 1);
         }
         else
         {
-            history.pop_back();
-            stream.unget();
             if (numberIsDouble)
             {
                 try {
-- 
2.43.0


From 9794d9bb47d4a1b5095e5ae33a4eee344bb00052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 11/59] fix: numbers with an exponent, out of integer range or
 without digit

---
 src/streamConsumer.cpp | 50 ++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 9ccccf3..0064876 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -4,6 +4,10 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <cerrno>
+#include <climits>
+#include <cmath>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 #include <codecvt>
@@ -270,10 +274,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     bool numberIsDouble = (firstChar == '.');
-
-    buf.str("");
-    buf.clear();
-    buf.write(&firstChar, 1);
+    bool hasExponent = false;
+    std::string number(1, firstChar);
 
     while (stream.good())
     {
@@ -281,32 +283,38 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
         const int next = stream.peek();
         const char c = next;
 
-        if (next != EOF && ((c >= '0' && c <= '9') || (c == '.' && !numberIsDouble)))
+        const char lastChar = number.back();
+
+        if (next != EOF && ((c >= '0' && c <= '9')
+                    || (c == '.' && !numberIsDouble)
+                    || ((c == 'e' || c == 'E') && !hasExponent)
+                    || ((c == '-' || c == '+') && (lastChar == 'e' || lastChar == 'E'))))
         {
             stream.get();
             history.put(c);
-            numberIsDouble |= (c == '.');
-            buf.write(&c, 1);
+            hasExponent |= (c == 'e' || c == 'E');
+            numberIsDouble |= (c == '.' || hasExponent);
+            number += c;
         }
         else
         {
-            if (numberIsDouble)
+            char *end;
+
+            errno = 0;
+            if (!numberIsDouble)
             {
-                try {
-                    return new JSonPrimitive<double>(parent, atof(buf.str().c_str()));
-                } catch (std::runtime_error &e)
-                {
+                const long long value = strtoll(number.c_str(), &end, 10);
+                if (*end || end == number.c_str())
                     throw JsonFormatException(stream.tellg(), history);
-                }
-            }
-            try
-            {
-                return new JSonPrimitive<int>(parent, std::stoi(buf.str()));
-            }
-            catch(std::out_of_range e)
-            {
-                return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
+                if (errno != ERANGE && value >= INT_MIN && value <= INT_MAX)
+                    return new JSonPrimitive<int>(parent, value);
+                if (errno != ERANGE)
+                    return new JSonPrimitive<long long>(parent, value);
             }
+            const double value = strtod(number.c_str(), &end);
+            if (*end || end == number.c_str() || std::isinf(value))
+                throw JsonFormatException(stream.tellg(), history);
+            return new JSonPrimitive<double>(parent, value);
         }
     }
     buf.str("");
-- 
2.43.0


From dae38158b9084dcb9315ba6c6f7a5dcace424d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 12/59] fix: precision of the decimal numbers written

---
 src/jsonPrimitive.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/jsonPrimitive.cpp b/src/jsonPrimitive.cpp
index bd02733..286c0a8 100644
--- a/src/jsonPrimitive.cpp
+++ b/src/jsonPrimitive.cpp
@@ -4,6 +4,8 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <cstdio>
+#include <cstdlib>
 #include "jsonPrimitive.hh"
 
 AJSonPrimitive::AJSonPrimitive(JSonElement *p): JSonElement(p)
@@ -30,7 +32,16 @@ template<> std::string JSonPrimitive<Null>::toString() const
 
 template<> std::string JSonPrimitive<double>::toString() const
 {
-    return std::to_string(value);
+    char buf[32];
+
+    // shortest representation that reads back as the same value
+    for (int precision = 15; precision <= 17; ++precision)
+    {
+        snprintf(buf, sizeof(buf), "%.*g", precision, value);
+        if (strtod(buf, nullptr) == value)
+            break;
+    }
+    return buf;
 }
 
 template<> std::string JSonPrimitive<long long>::toString() const
-- 
2.43.0


From 4af4600b05daf66ab0fb0ec008948c0acaed4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 13/59] fix: crash on object entries without value

---
 src/streamConsumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 0064876..aa2f518 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -96,6 +96,8 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
             }
         }
         JSonElement *child = readNext(result);
+        if (child == nullptr)
+            throw JsonNotJsonException(stream.tellg(), history);
         result->push(key->getValue(), child);
         delete keyObj;
         keyObj = consumeToken(result, buf);
-- 
2.43.0


From 0be225969e431cd750304ade4d37c94962f2ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 14/59] fix: end of objects silently dropped when a separator
 is missing

---
 src/streamConsumer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index aa2f518..4641343 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -101,7 +101,9 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
         result->push(key->getValue(), child);
         delete keyObj;
         keyObj = consumeToken(result, buf);
-    } while (!keyObj && buf.str() != "}");
+        if (keyObj || (buf.str() != "}" && buf.str() != ","))
+            throw JsonUnexpectedException('}', stream.tellg(), history);
+    } while (buf.str() != "}");
     return result;
 }
 
-- 
2.43.0


From 15fd41d9fab08a8626194fa824011070ca79bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 15/59] fix: out of bounds reads while building error messages

---
 src/jsonException.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index 2343e78..e6503bc 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -29,16 +29,17 @@ JsonNotJsonException::JsonNotJsonException(unsigned long long pos, LinearHistory
 { }
 
 JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, LinearHistory &h):
-    JsonException("unexpected escaped char " +c, pos, h), c(ch)
+    JsonException(std::string("unexpected escaped char ") +ch, pos, h), c(ch)
 { }
 
-JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException("expected " +expected, offset, h)
+JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
-    what += c + '\'';
+    what += c;
+    what += '\'';
     return what;
 }
 
-- 
2.43.0


From a37b302af9f0dd8d1be62ed0a8334d7140b3b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 16/59] fix: crash on errors found after an empty line

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 0bd256c..2592d3f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -23,7 +23,7 @@ void displayException(const std::string &filename, const Params &params, const s
     const std::string buffer = e.getHistory();
 
     std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.size() -1, '~') << '^' << std::endl;
+    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
-- 
2.43.0


From bb8bae137c4d727af657f66c64fdb25af851a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 17/59] fix: read errors silently ignored after a complete
 number

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 2592d3f..1967969 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -32,7 +32,7 @@ StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input
     stream->withConfig(&params);
 
     stream->read();
-    if (!stream->getRoot())
+    if (!stream->getRoot() || input.second->bad())
         throw EofException();
     return stream;
 }
-- 
2.43.0


From 84a5552957b5377cb873e4e48405256c996836eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 18/59] fix: buffer overflows while measuring the width of a
 text

---
 src/jsonElement.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 9c5572f..38dba25 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -28,9 +28,8 @@ size_t JSonElement::lazystrlen()
     const std::string buf = stringify();
     if (!buf.size())
         return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbstowcs(wbuf, buf.c_str(), buf.size() * sizeof(wchar_t));
-    return _strlen = wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return _strlen = (len == (size_t) -1) ? buf.size() : len;
 }
 
 size_t JSonElement::strlen() const
@@ -40,9 +39,8 @@ size_t JSonElement::strlen() const
     const std::string buf = stringify();
     if (!buf.size())
         return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbtowc(wbuf, buf.c_str(), buf.size());
-    return wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return (len == (size_t) -1) ? buf.size() : len;
 }
 
 unsigned int JSonElement::getLevel() const
-- 
2.43.0


From 9a195fda2bf5e49940fef714c66ca32ebf54ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 19/59] fix: signals handled from the signal handlers, or
 ignored until next key

---
 include/curseOutput.hh   |  7 ++++++
 include/inputSequence.hh |  7 +++++-
 src/curseOutput.cpp      | 49 ++++++++++++++++++++++++++++++----------
 src/inputSequence.cpp    |  5 +++-
 4 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 848ea59..9424b8d 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -44,6 +44,13 @@ class CurseOutput
         **/
         bool onsig(int signo);
 
+    private:
+        /**
+         * Handle the signals received since last call
+         * @return false if the program should stop
+        **/
+        bool handleSignals();
+
     protected:
         /**
          * until kill-input, display data and read user inputs
diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index 8759f3e..dfc0ba9 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <functional>
 #include <string>
 
 class InputSequence
@@ -11,7 +12,11 @@ class InputSequence
     public:
         ~InputSequence();
 
-        static InputSequence read(WINDOW *);
+        /**
+         * Wait for a key sequence
+         * @param idle called while waiting, empty sequence is returned when it returns false
+        **/
+        static InputSequence read(WINDOW *, const std::function<bool()> &idle);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 5e6a104..ad59d6e 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -20,18 +20,21 @@
 #include "except.hh"
 #include "streamConsumer.hh"
 
-static CurseOutput *runningInst = nullptr;
+/**
+ * Signals received and not handled yet, they cannot be handled from the signal handler
+**/
+static volatile sig_atomic_t pendingResize = false;
+static volatile sig_atomic_t pendingCont = false;
+static volatile sig_atomic_t pendingQuit = false;
 
-CurseOutput::CurseOutput(const Params &p): params(p)
+CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr), breakLoop(false)
 {
-    runningInst = this;
 }
 
 CurseOutput::~CurseOutput()
 {
     struct winsize size;
 
-    runningInst = nullptr;
     if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
         resize_term(size.ws_row, size.ws_col);
 }
@@ -40,7 +43,6 @@ void CurseOutput::loop(WINDOW * w)
 {
     inputResult read;
 
-    breakLoop = false;
     do
     {
         while (!redraw());
@@ -90,11 +92,32 @@ bool CurseOutput::onsig(int signo)
 
 void _resizeFnc(int signo)
 {
-    if (runningInst)
-        runningInst->onsig(signo);
+    if (signo == SIGWINCH)
+        pendingResize = true;
+    else if (signo == SIGCONT)
+        pendingCont = true;
+    else
+        pendingQuit = true;
     signal(signo, _resizeFnc);
 }
 
+bool CurseOutput::handleSignals()
+{
+    if (pendingCont)
+    {
+        pendingCont = false;
+        onsig(SIGCONT);
+    }
+    if (pendingResize)
+    {
+        pendingResize = false;
+        onsig(SIGWINCH);
+    }
+    if (pendingQuit)
+        onsig(SIGTERM);
+    return !breakLoop;
+}
+
 /**
  * Read input and expect signal
  * @Return true on:
@@ -105,9 +128,9 @@ void _resizeFnc(int signo)
 **/
 inputResult CurseOutput::readInput(WINDOW *w)
 {
-    while (!breakLoop)
+    while (handleSignals())
     {
-        inputResult r = evalKey(InputSequence::read(w));
+        inputResult r = evalKey(InputSequence::read(w, [this]() { return handleSignals(); }));
         if (r != inputResult::nextInput)
             return r;
     }
@@ -209,14 +232,17 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         w = stdscr;
 
     curs_set(true);
-    wtimeout(w, -1);
     while (!abort)
     {
         int c;
 
         writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
-        if (c == L'\n' || c == L'\r')
+        if (!handleSignals())
+            abort = true;
+        else if (c == ERR)
+            continue;
+        else if (c == L'\n' || c == L'\r')
             break;
         else if (c == L'\b' || c == 127)
         {
@@ -228,7 +254,6 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         else
             buffer += c;
     }
-    wtimeout(w, 150);
     curs_set(false);
 
     {
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index 6efeadf..65c94e0 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,13 +10,16 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w)
+InputSequence InputSequence::read(WINDOW *w, const std::function<bool()> &idle)
 {
     InputSequence result;
     const char *kname = nullptr;
 
     do
     {
+        if (!idle())
+            return InputSequence();
+
         const int input = wgetch(w ? w : stdscr);
 
         if (input == -1)
-- 
2.43.0


From b2e500707a0bb2851d363ed3ab1b994267ac33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 20/59] fix: signals in diff viewer ignored until next key,
 read of uninitialized fields

---
 src/curseSplitOutput.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 873a493..c046c52 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -27,6 +27,9 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
 CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
 {
     diffMatrice = nullptr;
+    bottomLine = nullptr;
+    nbInputs = 1;
+    selectedWin = workingWin = 0;
     init();
 }
 
@@ -62,6 +65,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
+        wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
         box(subwin.outerWin, 0, 0);
         wrefresh(subwin.outerWin);
-- 
2.43.0


From 66b87eb9df60f3173d89f257956eeb4ec3577895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 21/59] fix: signals and errors lost while loading an input,
 state of previous input kept

---
 include/curseOutput.hh |  5 +++++
 src/curseOutput.cpp    | 19 +++++++++++++------
 src/main.cpp           | 10 ++++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 9424b8d..1df452e 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -44,6 +44,11 @@ class CurseOutput
         **/
         bool onsig(int signo);
 
+        /**
+         * true if a signal asked the program to stop
+        **/
+        static bool interrupted();
+
     private:
         /**
          * Handle the signals received since last call
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index ad59d6e..acfac22 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -37,8 +37,15 @@ CurseOutput::~CurseOutput()
 
     if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
         resize_term(size.ws_row, size.ws_col);
+    signal(SIGWINCH, SIG_DFL);
+    signal(SIGINT, SIG_DFL);
+    signal(SIGTERM, SIG_DFL);
+    signal(SIGCONT, SIG_DFL);
 }
 
+bool CurseOutput::interrupted()
+{ return pendingQuit; }
+
 void CurseOutput::loop(WINDOW * w)
 {
     inputResult read;
@@ -311,6 +318,12 @@ void CurseOutput::writeBottomLine(const std::wstring &buffer, short color) const
 
 void CurseOutput::init()
 {
+    signal(SIGWINCH, _resizeFnc);
+    signal(SIGINT, _resizeFnc);
+    signal(SIGTERM, _resizeFnc);
+    signal(SIGKILL, _resizeFnc);
+    signal(SIGCONT, _resizeFnc);
+
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
@@ -353,11 +366,5 @@ void CurseOutput::init()
         colors.insert(OutputFlag::TYPE_OBJKEY);
         colors.insert(OutputFlag::TYPE_NULL);
     }
-
-    signal(SIGWINCH, _resizeFnc);
-    signal(SIGINT, _resizeFnc);
-    signal(SIGTERM, _resizeFnc);
-    signal(SIGKILL, _resizeFnc);
-    signal(SIGCONT, _resizeFnc);
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 1967969..71578a6 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -190,7 +190,6 @@ void runStdout(const Params &params)
 void run(const Params &params)
 {
     IndexedDeque inputs = params.getInputs();
-    CurseSimpleOutput *out = new CurseSimpleOutput(params);
     std::deque<Warning> warns;
 
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
@@ -198,11 +197,14 @@ void run(const Params &params)
         StreamConsumer *stream = readOneFile(input, params, warns);
         if (!stream)
             break;
-        out->run(stream->getRoot(), input.first);
+        {
+            CurseSimpleOutput out(params);
+            out.run(stream->getRoot(), input.first);
+        }
         delete stream;
+        if (CurseOutput::interrupted())
+            break;
     }
-    if (out)
-        delete out;
     for (Warning w : warns)
     {
         std::cerr << "Warning: ";
-- 
2.43.0


From 1867f4036a0c9eaeaf1fe5f73a414f95f9dd5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 22/59] fix: crashes and endless loops when the terminal is not
 usable

---
 src/curseOutput.cpp |  5 +++++
 src/main.cpp        | 30 +++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index acfac22..7417a9c 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -5,6 +5,7 @@
 **/
 
 #include <iostream>
+#include <stdexcept>
 
 #include <sys/ioctl.h>
 #include <algorithm>
@@ -327,6 +328,8 @@ void CurseOutput::init()
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
+        if (!screen_fd)
+            throw std::runtime_error("Cannot open terminal");
         setbuf(screen_fd, nullptr);
         screen = newterm(nullptr, screen_fd, screen_fd);
     }
@@ -335,6 +338,8 @@ void CurseOutput::init()
         screen = newterm(nullptr, stdout, stdin);
         screen_fd = nullptr;
     }
+    if (!screen)
+        throw std::runtime_error("Cannot initialize terminal");
     wtimeout(stdscr, 150);
     cbreak();
     clear();
diff --git a/src/main.cpp b/src/main.cpp
index 71578a6..996267e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -231,18 +231,26 @@ int main(int ac, char **av)
 
     if (_run)
     {
-        if (!params->isIgnoringUnicode())
-            setlocale(LC_ALL, "");
-        if (params->getExternalDiff())
-            runExternalDiff(*params);
-        else if (params->isDiff())
-            runDiff(*params);
-        else
-        {
-            if (!params->compressed() && isatty(fileno(stdout)))
-                run(*params);
+        try {
+            if (!params->isIgnoringUnicode())
+                setlocale(LC_ALL, "");
+            if (params->getExternalDiff())
+                runExternalDiff(*params);
+            else if (params->isDiff())
+                runDiff(*params);
             else
-                runStdout(*params);
+            {
+                if (!params->compressed() && isatty(fileno(stdout)))
+                    run(*params);
+                else
+                    runStdout(*params);
+            }
+        }
+        catch (std::runtime_error &e)
+        {
+            std::cerr << *av << ": " << e.what() << std::endl;
+            delete params;
+            exit (EXIT_FAILURE);
         }
     }
     delete params;
-- 
2.43.0


From de8a44fc65f7fdde78cf77ee74d7395dedadc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 23/59] fix: command of --diff-cmd which cannot be run leaves a
 copy of the program

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 996267e..cb0231b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -4,6 +4,8 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <cerrno>
+#include <cstring>
 #include <iostream>
 #include <sstream>
 #include <sys/types.h>
@@ -114,7 +116,11 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     if (fk == -1)
         return inputsFilenames;
     else if (fk == 0)
+    {
         execvp(*av, av);
+        std::cerr << p.getProgName() << ": cannot run " << *av << ": " << strerror(errno) << std::endl;
+        _exit(127);
+    }
     // Wait for child to terminate
     do {
         waitpid(fk, &status, 0);
-- 
2.43.0


From 1615073ea3526e5281dbfea14c01108390f9b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 24/59] fix: endless loop when the command of --diff-cmd is
 killed

---
 src/main.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index cb0231b..5c97574 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -122,9 +122,7 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         _exit(127);
     }
     // Wait for child to terminate
-    do {
-        waitpid(fk, &status, 0);
-    } while (!WIFEXITED(status));
+    while (waitpid(fk, &status, 0) == -1 && errno == EINTR);
     return inputsFilenames;
 }
 
-- 
2.43.0


From 7c36d46cc195e4aae71db7ee65b836327a6a4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 25/59] fix: temporary files shared between inputs or
 instances, endless loop if none can be created

---
 src/main.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 5c97574..9a12fd1 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <sys/types.h>
 #include <sys/wait.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <locale.h>
 #include "curseSimpleOutput.hh"
@@ -72,13 +73,20 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
     unsigned int i = 0;
     std::ofstream fout;
     std::stringstream ss;
+    int fd;
 
     do {
         ss = std::stringstream("");
         ss << "/tmp/jsondifftmp" << hash << '.' << i << ".tmp";
         outfile = ss.str();
+        // O_EXCL: never write over the file of another input or of another instance
+        fd = open(outfile.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
+    } while (fd < 0 && errno == EEXIST && ++i < 1000);
+    if (fd >= 0)
+    {
         fout.open(outfile);
-    } while (!fout.is_open() && i  < 1000);
+        close(fd);
+    }
     return fout;
 }
 
-- 
2.43.0


From f0cf23a007014b1c926250a18bd00b76c266e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 26/59] fix: command of --diff-cmd run on files which could not
 be written

---
 src/main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9a12fd1..870a870 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -107,9 +107,20 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         if (!stream)
             return inputsFilenames;
         std::ofstream fout = getOutputFile(input.first, fname);
-        inputsFilenames.push_back(fname);
-        SimpleOutput::display(fout, stream->getRoot(), p);
+        if (fout.is_open())
+        {
+            inputsFilenames.push_back(fname);
+            SimpleOutput::display(fout, stream->getRoot(), p);
+            fout.close();
+        }
+        else
+            fout.setstate(std::ios::failbit);
         delete stream;
+        if (!fout)
+        {
+            std::cerr << p.getProgName() << ": cannot write " << fname << std::endl;
+            return inputsFilenames;
+        }
     }
     for (Warning w : warns)
     {
-- 
2.43.0


From 4ba1b00ba16f2f84aea1fbee2f6d72db2df3c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 27/59] fix: silent failures while running the command of
 --diff-cmd

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 870a870..0bb958c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -86,6 +86,8 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
     {
         fout.open(outfile);
         close(fd);
+        if (!fout.is_open())
+            unlink(outfile.c_str());
     }
     return fout;
 }
@@ -133,7 +135,10 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     int status;
 
     if (fk == -1)
+    {
+        std::cerr << p.getProgName() << ": cannot run " << *av << ": " << strerror(errno) << std::endl;
         return inputsFilenames;
+    }
     else if (fk == 0)
     {
         execvp(*av, av);
-- 
2.43.0


From 967b088f6e183ecc40b27c40bee385a9e37cd0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 28/59] fix: write errors silently ignored on standard output

---
 src/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 0bb958c..7df2e0a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -207,6 +207,8 @@ void runStdout(const Params &params)
             break;
         SimpleOutput::display(std::cout, stream->getRoot(), params);
         delete stream;
+        if (!std::cout.flush())
+            throw std::runtime_error("write error");
     }
     for (Warning w : warns)
     {
-- 
2.43.0


From aaaedd1eed28438a8fc751b93eb2433df9c638c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 29/59] fix: buffer overflow in search prompt, backspace and
 non-ASCII characters input

---
 src/curseOutput.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 7417a9c..d5365c1 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -234,7 +234,7 @@ void CurseOutput::unfold(const JSonElement *item)
 
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
-    std::wstring buffer;
+    std::string buffer;
     bool abort = false;
     if (!w)
         w = stdscr;
@@ -244,7 +244,7 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
     {
         int c;
 
-        writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
+        writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
         if (!handleSignals())
             abort = true;
@@ -252,27 +252,26 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
             continue;
         else if (c == L'\n' || c == L'\r')
             break;
-        else if (c == L'\b' || c == 127)
+        else if (c == L'\b' || c == 127 || c == KEY_BACKSPACE)
         {
+            while (!buffer.empty() && (buffer.back() & 0xC0) == 0x80) // multi-bytes character
+                buffer.pop_back();
             if (!buffer.empty())
                 buffer.pop_back();
         }
         else if (c == 27)
             abort = true;
-        else
+        else if (c < 256) // ignore function keys
             buffer += c;
     }
     curs_set(false);
 
     {
-        const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t)];
-        wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
         std::string str;
         if (params.isIgnoringUnicode())
-            str = bytesString;
+            str = buffer;
         else
-            str = StreamConsumer::extractUnicode(bytesString);
+            str = StreamConsumer::extractUnicode(buffer);
         return abort ? nullptr : new SearchPattern(str);
     }
 }
-- 
2.43.0


From 2dc599d7ceb16ccfc0485c994cef5be1bbe6f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 30/59] fix: unicode values in search patterns

---
 src/streamConsumer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 4641343..74d069a 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -414,10 +414,10 @@ std::string StreamConsumer::extractUnicode(const char *buf)
 
     for (; *buf; buf++)
     {
-        if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
+        if (*buf == '\\' && buf[1] == 'u' && isxdigit(buf[2]) && isxdigit(buf[3]) && isxdigit(buf[4]) && isxdigit(buf[5]))
         {
             appendUnicode(buf +2, result);
-            buf += 6;
+            buf += 5;
         }
         else
             result.write(buf, 1);
-- 
2.43.0


From 30bbf3dcb88831c88b9a39086dda553d4994d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 31/59] fix: type of searched elements not initialized

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 62db98d..dd0a86a 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
-- 
2.43.0


From ce2a861069f7c5e4194480475b0f3ca25c2f90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 32/59] fix: crash on invalid regular expressions

---
 src/searchPattern.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index dd0a86a..c7d7365 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -73,7 +73,13 @@ void SearchPattern::evalFlags(const char *s)
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
         if (flags & FLAG_CASE)
             opts |= std::regex_constants::icase;
-        regex = new std::regex(pattern, opts);
+        try {
+            regex = new std::regex(pattern, opts);
+        }
+        catch (std::regex_error &e)
+        {
+            regex = nullptr; // invalid regex: no result
+        }
     }
 }
 
@@ -106,7 +112,7 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
             return false;
     }
     if (flags & FLAG_REGEX)
-        return regex_search(str, *regex);
+        return regex && regex_search(str, *regex);
     if ((flags & FLAG_WHOLESTR && str.length() != pattern.length())
             || pattern.length() > str.length())
         return false;
-- 
2.43.0


From 8fa28756a8b97e8f5501d4e7668b75f5922cc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 33/59] fix: memory leak on empty search patterns

---
 src/curseSimpleOutput.cpp | 3 +++
 src/curseSplitOutput.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index f0d0623..b7eadd9 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -169,7 +169,10 @@ inputResult CurseSimpleOutput::initSearch()
         return inputResult::redraw;
     search_result.clear();
     if (search_pattern->isEmpty())
+    {
+        delete search_pattern;
         return inputResult::redraw;
+    }
     search(*search_pattern, data);
     delete search_pattern;
     return nextResult();
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index c046c52..dd24530 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -209,7 +209,10 @@ inputResult CurseSplitOutput::initSearch()
     for (t_subWindow &s : subWindows)
         s.searchResults.clear();
     if (searchPattern->isEmpty())
+    {
+        delete searchPattern;
         return inputResult::redraw;
+    }
     search(*searchPattern);
     delete searchPattern;
     return nextResult();
-- 
2.43.0


From 5ef1df9ef8e784efce69d34c732860197d7e51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 34/59] fix: next item of an entry whose content is below the
 screen

---
 src/curseSimpleOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index b7eadd9..7bfde3b 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -60,7 +60,8 @@ bool CurseSimpleOutput::redraw()
         selectIsLast = true;
     if (!select_down)
     {
-        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(selection);
+        const JSonObjectEntry *pentry = dynamic_cast<const JSonObjectEntry*>(selection);
+        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(pentry ? **pentry : selection);
         if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
             select_down = *(pselect->cbegin());
         else
-- 
2.43.0


From eaaea6c10c88f56ff0b7c010bd25ad57d0f9f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 35/59] fix: selection left out of the screen when the search
 goes back to top

---
 src/curseOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index d5365c1..ecc833b 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -188,10 +188,10 @@ inputResult CurseOutput::evalKey(const InputSequence &c)
 
 bool CurseOutput::redraw(const std::string &errorMsg)
 {
-    bool result = redraw();
+    while (!redraw());
 
     writeBottomLine(errorMsg, OutputFlag::SPECIAL_ERROR);
-    return result;
+    return true;
 }
 
 unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, unsigned int maxWidth, OutputFlag flags)
-- 
2.43.0


From 7b83af2496b8a064b549200d6b378e025b4a2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 36/59] fix: read errors of the standard input silently ignored
 after a complete number

---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 7df2e0a..f6fe858 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -5,6 +5,7 @@
 **/
 
 #include <cerrno>
+#include <cstdio>
 #include <cstring>
 #include <iostream>
 #include <sstream>
@@ -35,7 +36,7 @@ StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input
     stream->withConfig(&params);
 
     stream->read();
-    if (!stream->getRoot() || input.second->bad())
+    if (!stream->getRoot() || input.second->bad() || (input.second == &std::cin && ferror(stdin)))
         throw EofException();
     return stream;
 }
-- 
2.43.0


From 46c3fbe78c6c67b03e486a1f22b0c8b7b55a9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 37/59] fix: values of several inputs joined together by
 --compress

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index f6fe858..145f309 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -200,12 +200,16 @@ void runStdout(const Params &params)
 {
     IndexedDeque inputs = params.getInputs();
     std::deque<Warning> warns;
+    bool first = true;
 
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
     {
         StreamConsumer *stream = readOneFile(input, params, warns);
         if (!stream)
             break;
+        if (params.compressed() && !first)
+            std::cout << std::endl; // or the values of two inputs could not be told apart
+        first = false;
         SimpleOutput::display(std::cout, stream->getRoot(), params);
         delete stream;
         if (!std::cout.flush())
-- 
2.43.0


From bc7f4110e0d2b76f4273a089cdfb689fed57e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 38/59] fix: blank lines after keys ending near the right
 border

---
 src/curseSimpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 7bfde3b..67a7ae2 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -324,7 +324,7 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen, screenSize.first -extraLen -2, flags);
+    cursor.second += write(cursor.first, cursor.second, key, keylen +extraLen +2, screenSize.first, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
-- 
2.43.0


From 619042eecfa053db8d57059636f0a5faa775fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 39/59] fix: selection stuck on items which do not fit in the
 screen

---
 include/curseSimpleOutput.hh | 1 +
 src/curseSimpleOutput.cpp    | 5 +++--
 src/jsonElement.cpp          | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/curseSimpleOutput.hh b/include/curseSimpleOutput.hh
index 1f6081a..d51ed93 100644
--- a/include/curseSimpleOutput.hh
+++ b/include/curseSimpleOutput.hh
@@ -91,5 +91,6 @@ class CurseSimpleOutput: public CurseOutput
          * Used for moving viewport
         **/
         bool selectFound, selectIsLast;
+        unsigned int selectPos;
 };
 
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 67a7ae2..06776df 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -26,7 +26,7 @@ CurseSimpleOutput::~CurseSimpleOutput()
 
 void CurseSimpleOutput::run(JSonElement *root, const std::string &i)
 {
-    scrollTop = 0;
+    scrollTop = selectPos = 0;
     selection = data = root;
     inputName = i;
     loop(nullptr);
@@ -84,7 +84,7 @@ inputResult CurseSimpleOutput::selectUp()
 
 inputResult CurseSimpleOutput::selectDown()
 {
-    if (selectIsLast)
+    if (selectIsLast && scrollTop +1 < selectPos)
         scrollTop += 2;
     else if (selection != select_down)
         selection = select_down;
@@ -512,6 +512,7 @@ void CurseSimpleOutput::checkSelection(const JSonElement *item, const t_Cursor &
         {
             if (cursor.second <= scrollTop) //Selection is above vp, move scroll pos to selection and start drawing
                 scrollTop = cursor.second == 0 ? 0 : cursor.second -1;
+            selectPos = cursor.second;
             selectFound = true;
         }
         else if (!item->getParent() || !dynamic_cast<const JSonObjectEntry*>(item->getParent()))
diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 38dba25..64b28e6 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -84,6 +84,8 @@ const JSonElement* JSonElement::findNext() const
 {
     const JSonElement *item = this;
     const JSonElement *parent = item->getParent();
+    if (parent && dynamic_cast<const JSonObjectEntry*>(parent))
+        return parent->findNext(); // Value of an entry
     if (parent == nullptr || !dynamic_cast<const JSonContainer*>(parent))
         return nullptr; // Root node, can't have brothers
     JSonContainer::const_iterator it = ((const JSonContainer*)parent)->cbegin();
-- 
2.43.0


From bf7025a026f12486de4ba1eb4743b28cf024f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 40/59] fix: text written at wrong place when indentation
 exceeds the screen width

---
 include/curseSimpleOutput.hh |  6 ++++++
 src/curseSimpleOutput.cpp    | 42 ++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/include/curseSimpleOutput.hh b/include/curseSimpleOutput.hh
index d51ed93..b895ddd 100644
--- a/include/curseSimpleOutput.hh
+++ b/include/curseSimpleOutput.hh
@@ -38,6 +38,12 @@ class CurseSimpleOutput: public CurseOutput
         const OutputFlag getFlag(const JSonElement *item) const;
         const OutputFlag getFlag(const JSonElement *item, const JSonElement *selection) const;
 
+        /**
+         * Move the cursor, to one of the next lines if x is out of screen
+         * @return false if this is below the screen
+        **/
+        bool moveTo(unsigned int x, unsigned int y) const;
+
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
         void write(const std::string &str, const OutputFlag flags) const;
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 06776df..33d67c7 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -323,11 +323,15 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_
         return true;
     }
     char oldType = flags.type();
-    flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen +extraLen +2, screenSize.first, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
-    flags.type(oldType);
+    if (moveTo(cursor.first, cursor.second))
+    {
+        flags.type(OutputFlag::TYPE_OBJKEY);
+        write(key, flags);
+        flags.type(OutputFlag::TYPE_OBJ);
+        write(": ", flags);
+        flags.type(oldType);
+    }
+    cursor.second += getNbLines(cursor.first +keylen +2 +extraLen, screenSize.first);
     return !hasReachedBottom(cursor.second, scrollTop, screenSize.second);
 }
 
@@ -339,12 +343,15 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, co
         return true;
     }
     char oldType = flags.type();
-    flags.type(OutputFlag::TYPE_OBJKEY);
-    write(cursor.first, cursor.second, key, 0, 1, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
-    flags.type(oldType);
-    write(after.c_str(), flags);
+    if (moveTo(cursor.first, cursor.second))
+    {
+        flags.type(OutputFlag::TYPE_OBJKEY);
+        write(key, flags);
+        flags.type(OutputFlag::TYPE_OBJ);
+        write(": ", flags);
+        flags.type(oldType);
+        write(after.c_str(), flags);
+    }
     cursor.second += getNbLines(cursor.first +keylen +2 +afterlen, screenSize.first);
     return !hasReachedBottom(cursor.second, scrollTop, screenSize.second);
 }
@@ -354,12 +361,19 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, co
     return writeKey(key, keylen, after, after.size(), cursor, flags);
 }
 
+bool CurseSimpleOutput::moveTo(unsigned int x, unsigned int y) const
+{
+    return screenSize.first && move(y - scrollTop + x / screenSize.first, x % screenSize.first) != ERR;
+}
+
 unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags)
 {
     char color = OutputFlag::SPECIAL_NONE;
 
     if (y <= scrollTop)
         return 1;
+    if (!moveTo(x, y))
+        return getNbLines(x +1, maxWidth);
 
     if (flags.selected())
         attron(A_REVERSE | A_BOLD);
@@ -370,7 +384,7 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
 
     if (color != OutputFlag::SPECIAL_NONE)
         attron(COLOR_PAIR(color));
-    mvprintw(y - scrollTop, x, "%c", item);
+    printw("%c", item);
     attroff(A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         attroff(COLOR_PAIR(color));
@@ -381,8 +395,8 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
 {
     if (y <= scrollTop)
         return 1;
-    move(y - scrollTop, x);
-    write(str, flags);
+    if (moveTo(x, y))
+        write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
 
-- 
2.43.0


From 40bc602036b3dc378addea866d33c53f8db80b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 41/59] fix: size of the terminal not updated when it changed
 while the program was stopped

---
 src/curseOutput.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index ecc833b..9e02ffb 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -66,10 +66,10 @@ void CurseOutput::onResizeHandler()
 bool CurseOutput::onsig(int signo)
 {
     struct winsize size;
-    t_Cursor oldScrSize;
 
     switch (signo)
     {
+    case SIGCONT: // size may have changed, ncurses may already know about it
     case SIGWINCH:
         if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
             resize_term(size.ws_row, size.ws_col);
@@ -78,14 +78,6 @@ bool CurseOutput::onsig(int signo)
         while (!redraw());
         break;
 
-    case SIGCONT:
-        oldScrSize = getScreenSizeUnsafe();
-        if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == -1)
-            break;
-        if (size.ws_row != oldScrSize.second || size.ws_col != oldScrSize.first)
-            kill(getpid(), SIGWINCH);
-        break;
-
     case SIGKILL:
     case SIGINT:
     case SIGTERM:
-- 
2.43.0


From 5cd5348dd30549964a1f3e2e188c2eaf660e07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 42/59] fix: division by zero while comparing empty objects or
 arrays

---
 include/levenshteinMatrice.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index c341f69..cb52975 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -113,8 +113,11 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
 
             result->levenDist = matrice[n][m];
-            result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
-            if (result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
+            if (!n && !m) // both are empty: same content, and no path between them
+                result->levenRelativeDist = 1;
+            else
+                result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
+            if ((n || m) && result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
             return result;
-- 
2.43.0


From 5381a6880d933c1bb2eba1ddd9d6446b1aa9ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 43/59] fix: overflow of the distances while comparing large
 objects or arrays

---
 include/levenshteinMatrice.hpp | 6 +++---
 src/levenshtein.cpp            | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index cb52975..1249006 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -97,10 +97,10 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     LevenshteinMatrice_base *_subMatrice = matriceBuilder.build(*a, *b);
                     if (_subMatrice != nullptr)
                     {
-                        const T chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
+                        const size_t chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
 
-                        if (chCost <= matrice[i -1][j] +1 &&
-                                chCost <= matrice[i][j -1] +1)
+                        if (chCost <= (size_t) matrice[i -1][j] +1 &&
+                                chCost <= (size_t) matrice[i][j -1] +1)
                         {
                             matrice[i][j] = chCost;
                             subMatrice[i -1][j -1] = _subMatrice;
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 5ad378e..51182d5 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -61,9 +61,10 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
 
         LevenshteinMatrice *result = nullptr;
 
-        if (lenA < UCHAR_MAX && lenB < UCHAR_MAX)
+        // distances go up to lenA + lenB
+        if (lenA + lenB <= UCHAR_MAX)
             result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB);
-        else if (lenA < USHRT_MAX && lenB < USHRT_MAX)
+        else if (lenA + lenB <= USHRT_MAX)
             result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB);
         else
             result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
-- 
2.43.0


From 59ff4c7b2f90d536adef15fdba0e746b719cb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 44/59] fix: copy of uninitialized fields in diff viewer

---
 src/curseSplitOutput.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index dd24530..276efe0 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -62,6 +62,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.select_up = subwin.select_down = nullptr;
         subwin.innerWin = subwin.outerWin = nullptr;
         subwin.scrollTop = 0;
+        subwin.selectFound = subwin.selectIsLast = false;
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
-- 
2.43.0


From b4501fdc82aebf545ae4a7089b1391f89b3087a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 45/59] fix: differences between similar or differently typed
 values not shown

---
 include/levenshteinMatrice.hpp |  9 ++++++++-
 src/levenshtein.cpp            | 20 +++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 1249006..d0eda94 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -47,7 +47,7 @@ class LevenshteinMatrice_manual: public LevenshteinMatrice_base
 class LevenshteinMatriceWithScore: public LevenshteinMatrice_base
 {
     public:
-        LevenshteinMatriceWithScore(float score, const JSonElement *a, const JSonElement *b, bool sameType);
+        LevenshteinMatriceWithScore(float score, const JSonElement *a, const JSonElement *b, bool sameType, bool same);
 
         std::map<const JSonElement *, const JSonElement *> getEquivalences() const;
         virtual const JSonElement * getEquivalence(const JSonElement *) const;
@@ -192,6 +192,8 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     operations[*i] = operations[*j] = op;
                     for (std::pair<const JSonElement *, eLevenshteinOperator> e : subMatrice[_i -1][_j -1]->path())
                         operations[e.first] = e.second;
+                    if (isValueChanged(*i))
+                        operations[*i] = operations[*j] = eLevenshteinOperator::mod;
                     for (std::pair<const JSonElement *, const JSonElement *> e : (subMatrice[_i -1][_j -1])->getEquivalences())
                         equivalences[e.first] = e.second;
                     equivalences[*i] = *j;
@@ -216,6 +218,11 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
         }
 
 
+        /**
+         * @return true for an entry displayed on one line, whose value is not the one of its equivalence
+        **/
+        bool isValueChanged(const JSonElement *e) const;
+
     private:
         LevenshteinMatrice();
 
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 51182d5..9a752c6 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -94,12 +94,12 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
         {
             if (a->stringify() == b->stringify())
                 return LevenshteinMatrice_base::Builder::build(*(const JSonObjectEntry&)(*a), *(const JSonObjectEntry&)(*b));
-            return new LevenshteinMatriceWithScore(0.f, a, b, true);
+            return new LevenshteinMatriceWithScore(0.f, a, b, true, false);
         }
         else if (aIsObject || bIsObject)
-            return new LevenshteinMatriceWithScore(0.f, a, b, false);
+            return new LevenshteinMatriceWithScore(0.f, a, b, false, false);
         return new LevenshteinMatriceWithScore(levenshteinPercent(a->stringify(), b->stringify()),
-                a, b, ((const AJSonPrimitive*)a)->sameType((const AJSonPrimitive *)b));
+                a, b, ((const AJSonPrimitive*)a)->sameType((const AJSonPrimitive *)b), a->stringify() == b->stringify());
     }
 }
 
@@ -144,6 +144,16 @@ const JSonElement *LevenshteinMatrice::getEquivalence(const JSonElement *e) cons
     return nullptr;
 }
 
+bool LevenshteinMatrice::isValueChanged(const JSonElement *e) const
+{
+    const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(e);
+
+    if (!entry || dynamic_cast<const JSonContainer*>(**entry))
+        return false;
+    std::map<const JSonElement*, eLevenshteinOperator>::const_iterator op = operations.find(**entry);
+    return op != operations.end() && op->second != eLevenshteinOperator::equ;
+}
+
 std::map<const JSonElement*, const JSonElement *> LevenshteinMatrice::getEquivalences() const
 { return equivalences; }
 
@@ -169,7 +179,7 @@ bool LevenshteinMatrice_manual::areSimilar() const
 /**
  * Score matrice
 **/
-LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElement *a, const JSonElement *b, bool sameType)
+LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElement *a, const JSonElement *b, bool sameType, bool same)
 {
     _result = s > LEVENSHTEIN_SENSIBILITY;
     if (sameType)
@@ -180,7 +190,7 @@ LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElem
     else
         equivalentA = equivalentB = nullptr;
     if (sameType)
-        operations[a] = operations[b] = (_result ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
+        operations[a] = operations[b] = (same ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
     else
         operations[a] = operations[b] = eLevenshteinOperator::add;
 }
-- 
2.43.0


From 06dd5ac95e3561d0cf6bbe3f3748b10808594ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 46/59] fix: objects and arrays taken as equivalent

---
 src/levenshtein.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 9a752c6..60f76cc 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -1,4 +1,5 @@
 #include <climits>
+#include <typeinfo>
 #include "levenshteinMatrice.hpp"
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
@@ -51,7 +52,14 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
     const bool aIsContainer = ((dynamic_cast<const JSonContainer*>(a)) != nullptr);
     const bool bIsContainer = ((dynamic_cast<const JSonContainer*>(b)) != nullptr);
 
-    if (aIsContainer && bIsContainer)
+    if (aIsContainer && bIsContainer && typeid(*a) != typeid(*b))
+    {
+        LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
+        result->_result = std::max(((const JSonContainer*)a)->size(), ((const JSonContainer*)b)->size()) +1;
+        return result->add(a, eLevenshteinOperator::rem)
+            ->add(b, eLevenshteinOperator::add);
+    }
+    else if (aIsContainer && bIsContainer)
     {
         const size_t lenA = ((const JSonContainer*) a)->size();
         const size_t lenB = ((const JSonContainer*) b)->size();
-- 
2.43.0


From 3adb66114a11effc0f7fa849ef2f066506c92041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 47/59] fix: search results of all the windows selected in the
 active one

---
 src/curseSplitOutput.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 276efe0..4378f24 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -320,8 +320,12 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern)
 {
     unsigned int result =0;
 
+    workingWin = 0;
     for (t_subWindow &w : subWindows)
+    {
         result += search(searchPattern, w.root);
+        ++workingWin;
+    }
     return result;
 }
 
@@ -341,14 +345,14 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
         if (current && current->match(searchPattern))
         {
             if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                subWindows.at(selectedWin).searchResults.push_back(current->getParent());
+                subWindows.at(workingWin).searchResults.push_back(current->getParent());
             else
-                subWindows.at(selectedWin).searchResults.push_back(current);
+                subWindows.at(workingWin).searchResults.push_back(current);
         }
         if (objEntry)
             search(searchPattern, **objEntry);
     }
-    return subWindows.at(selectedWin).searchResults.size();
+    return subWindows.at(workingWin).searchResults.size();
 }
 
 bool CurseSplitOutput::jumpToNextSearch()
@@ -879,9 +883,9 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
 
     res.selected(item == selection
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
-    res.searched(std::find(subWindows.at(selectedWin).searchResults.cbegin(),
-                subWindows.at(selectedWin).searchResults.cend(),
-                item) != subWindows.at(selectedWin).searchResults.cend());
+    res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
+                subWindows.at(workingWin).searchResults.cend(),
+                item) != subWindows.at(workingWin).searchResults.cend());
 
     try {
         res.diffOp(diffMatrice->get(item));
-- 
2.43.0


From 5ec9ee44ebf43bfbf5a87582c22f230aaa4f98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 48/59] fix: parents of a search result unfolded in one window
 only

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 107aaef..0dcf101 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -58,6 +58,11 @@ class CurseSplitOutput: public CurseOutput
         bool jumpToNextSearch(const JSonElement *current, bool &selectFound);
         bool jumpToNextSearch();
 
+        /**
+         * unfold all item's parents, and their equivalents in the other windows
+        **/
+        void unfoldAll(const JSonElement *item);
+
         virtual void writeBottomLine(const std::string &currentBuffer, short color) const;
         virtual void writeBottomLine(const std::wstring &currentBuffer, short color) const;
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 4378f24..5a16625 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -363,14 +363,25 @@ bool CurseSplitOutput::jumpToNextSearch()
     if (!res)
     {
         setSelection(*(subWindows.at(selectedWin).searchResults.cbegin()));
-        unfold(subWindows.at(selectedWin).selection);
+        unfoldAll(subWindows.at(selectedWin).selection);
         CurseOutput::redraw("Search hit BOTTOM, continuing at TOP");
         return false;
     }
-    unfold(subWindows.at(selectedWin).selection);
+    unfoldAll(subWindows.at(selectedWin).selection);
     return true;
 }
 
+void CurseSplitOutput::unfoldAll(const JSonElement *item)
+{
+    unfold(item);
+    for (item = item->getParent(); item; item = item->getParent())
+    {
+        const JSonElement *equivalence = diffMatrice->getEquivalence(item);
+        if (equivalence)
+            collapsed.erase((const JSonContainer *) equivalence);
+    }
+}
+
 const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
 {
     bool result;
-- 
2.43.0


From 127a83164f2e91dcf6ac135b5eae352b7351b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 49/59] fix: next item of an entry whose content is below the
 window

---
 src/curseSplitOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5a16625..5111b6a 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -410,7 +410,8 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
         }
         if (!w.select_down)
         {
-            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(w.selection);
+            const JSonObjectEntry *pentry = dynamic_cast<const JSonObjectEntry*>(w.lastSelection);
+            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(pentry ? **pentry : w.lastSelection);
             if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
                 w.select_down = *(pselect->cbegin());
             else
-- 
2.43.0


From de574c139566b0240a1c019a61187e525b732789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 50/59] fix: diff markers written at wrong place once scrolled

---
 include/curseSplitOutput.hh |  2 +-
 src/curseSplitOutput.cpp    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 0dcf101..7c34414 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -51,7 +51,7 @@ class CurseSplitOutput: public CurseOutput
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
         void write(const std::string &str, const OutputFlag flags) const;
-        void displayDiffOp(WINDOW *w, const int &y, const eLevenshteinOperator &op) const;
+        void displayDiffOp(const t_subWindow &, unsigned int y, const eLevenshteinOperator &op) const;
 
         void writeTopLine(const std::string &currentBuffer, short color) const;
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5111b6a..4781c29 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -501,7 +501,7 @@ bool CurseSplitOutput::redraw()
                 for (t_subWindow &wi: subWindows)
                     if (i++ != workingWin)
                         for (unsigned int j = 0; j < diffY; ++j)
-                            displayDiffOp(wi.innerWin, (wi.cursor.second)++, eLevenshteinOperator::rem);
+                            displayDiffOp(wi, (wi.cursor.second)++, eLevenshteinOperator::rem);
                 restart = true;
 
                 break;
@@ -758,12 +758,17 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
     if (color != OutputFlag::SPECIAL_NONE)
         wattroff(currentWin, COLOR_PAIR(color));
 
-    displayDiffOp(currentWin, offsetY, flags.diffOp());
+    displayDiffOp(subWindows.at(workingWin), y, flags.diffOp());
     return getNbLines(x +1, maxWidth);
 }
 
-void CurseSplitOutput::displayDiffOp(WINDOW *w, const int &y, const eLevenshteinOperator &op) const
+void CurseSplitOutput::displayDiffOp(const t_subWindow &win, unsigned int y, const eLevenshteinOperator &op) const
 {
+    WINDOW *w = win.innerWin;
+
+    if (y <= win.scrollTop) // before top of screen
+        return;
+    y -= win.scrollTop;
     switch (op)
     {
         case eLevenshteinOperator::add:
@@ -798,11 +803,10 @@ void CurseSplitOutput::displayDiffOp(WINDOW *w, const int &y, const eLevenshtein
 unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags)
 {
     const t_subWindow &w = subWindows.at(workingWin);
-    WINDOW *currentWin = w.innerWin;
 
     if (y <= w.scrollTop)
         return 1;
-    displayDiffOp(currentWin, y, flags.diffOp());
+    displayDiffOp(w, y, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
-- 
2.43.0


From 5abe7eefef1c3246dcb91e25726daed3a51aaf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 51/59] fix: items written below the window after a gap

---
 src/curseSplitOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 4781c29..4cca582 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -387,7 +387,9 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     bool result;
 
     try {
-        if (w.parentsIterators.empty())
+        if (hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second)) // reached by the gaps
+            result = false;
+        else if (w.parentsIterators.empty())
             result = redraw(w, w.root);
         else
             result = redraw(w, w.parentsIterators.top());
-- 
2.43.0


From ce445fdb34bec5c4071444a7a8eae42475a80a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 52/59] fix: text written at wrong place when indentation
 exceeds the width of the window

---
 include/curseSplitOutput.hh |  6 +++++
 src/curseSplitOutput.cpp    | 50 +++++++++++++++++++++++++------------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 7c34414..1a927d7 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -51,6 +51,12 @@ class CurseSplitOutput: public CurseOutput
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
         void write(const std::string &str, const OutputFlag flags) const;
+
+        /**
+         * move the cursor of the working window where to write an item, even if indentation does not fit in the window
+         * @return false if this position is below the window
+        **/
+        bool moveTo(unsigned int x, unsigned int y) const;
         void displayDiffOp(const t_subWindow &, unsigned int y, const eLevenshteinOperator &op) const;
 
         void writeTopLine(const std::string &currentBuffer, short color) const;
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 4cca582..18afd16 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -611,11 +611,16 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
         return true;
     }
     char oldType = flags.type();
-    flags.type(OutputFlag::TYPE_OBJKEY);
-    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen, screenSize.first -extraLen -2 -2, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
-    flags.type(oldType);
+    displayDiffOp(w, w.cursor.second, flags.diffOp());
+    if (moveTo(w.cursor.first, w.cursor.second))
+    {
+        flags.type(OutputFlag::TYPE_OBJKEY);
+        write(key, flags);
+        flags.type(OutputFlag::TYPE_OBJ);
+        write(": ", flags);
+        flags.type(oldType);
+    }
+    w.cursor.second += getNbLines(w.cursor.first +keylen +2 +extraLen, screenSize.first -2);
     return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
 }
 
@@ -627,12 +632,16 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
         return true;
     }
     char oldType = flags.type();
-    flags.type(OutputFlag::TYPE_OBJKEY);
-    write(cursor.first, cursor.second, key, 0, 1, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
-    flags.type(oldType);
-    write(after, flags);
+    displayDiffOp(w, cursor.second, flags.diffOp());
+    if (moveTo(cursor.first, cursor.second))
+    {
+        flags.type(OutputFlag::TYPE_OBJKEY);
+        write(key, flags);
+        flags.type(OutputFlag::TYPE_OBJ);
+        write(": ", flags);
+        flags.type(oldType);
+        write(after, flags);
+    }
     cursor.second += getNbLines(cursor.first +keylen +2 +afterlen, screenSize.first -2);
     return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
 }
@@ -737,14 +746,24 @@ bool CurseSplitOutput::writeObjectEntry(t_subWindow &w, JSonObjectEntry *ent)
     return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
 }
 
+bool CurseSplitOutput::moveTo(unsigned int x, unsigned int y) const
+{
+    const t_subWindow &w = subWindows.at(workingWin);
+    const unsigned int width = screenSize.first -2;
+
+    return wmove(w.innerWin, y - w.scrollTop + x / width, x % width) != ERR;
+}
+
 unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags)
 {
-    unsigned int offsetY = y - subWindows.at(workingWin).scrollTop;
     WINDOW *currentWin = subWindows.at(workingWin).innerWin;
     char color = OutputFlag::SPECIAL_NONE;
 
     if (y <= subWindows.at(workingWin).scrollTop) // underflow / before top of screen
         return 1;
+    displayDiffOp(subWindows.at(workingWin), y, flags.diffOp());
+    if (!moveTo(x, y))
+        return getNbLines(x +1, maxWidth);
 
     if (flags.selected())
         wattron(currentWin, A_REVERSE | A_BOLD);
@@ -755,12 +774,11 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (color != OutputFlag::SPECIAL_NONE)
         wattron(currentWin, COLOR_PAIR(color));
-    mvwprintw(currentWin, offsetY, x, "%c", item);
+    wprintw(currentWin, "%c", item);
     wattroff(currentWin, A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         wattroff(currentWin, COLOR_PAIR(color));
 
-    displayDiffOp(subWindows.at(workingWin), y, flags.diffOp());
     return getNbLines(x +1, maxWidth);
 }
 
@@ -809,8 +827,8 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
     if (y <= w.scrollTop)
         return 1;
     displayDiffOp(w, y, flags.diffOp());
-    wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
-    write(str, flags);
+    if (moveTo(x, y))
+        write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
 
-- 
2.43.0


From 6af50d87318995ba2be78507c9fdddcfa78ea9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 53/59] fix: endless loops on terminals too small for the
 windows

---
 src/curseSplitOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 18afd16..d473c89 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -890,7 +890,8 @@ void CurseSplitOutput::writeTopLine(const std::string &buffer, short color) cons
 const t_Cursor CurseSplitOutput::getScreenSize() const
 {
     t_Cursor result = getScreenSizeUnsafe();
-    return t_Cursor(result.first / nbInputs, result.second -2);
+    // windows have to contain at least their borders and one character
+    return t_Cursor(std::max(result.first / nbInputs, 3u), std::max(result.second, 3u) -2);
 }
 
 void CurseSplitOutput::shutdown()
-- 
2.43.0


From 369c60fa4f77dcfd91f63668ca844e94a77ce044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 54/59] fix: stale characters in the last columns when the
 terminal is resized in diff viewer

---
 src/curseSplitOutput.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index d473c89..5f8432b 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -434,6 +434,7 @@ void CurseSplitOutput::onResizeHandler()
     size_t i =0;
     t_Cursor ss = getScreenSizeUnsafe();
     clear();
+    wnoutrefresh(stdscr); // The windows may not cover the last columns
 
     wresize(bottomLine, 1, ss.first);
     mvwin(bottomLine, ss.second -1, 0);
@@ -443,7 +444,9 @@ void CurseSplitOutput::onResizeHandler()
         wresize(subwin.innerWin, screenSize.second, screenSize.first -2);
         mvwin(subwin.outerWin, 0, i * (screenSize.first -1));
         mvwin(subwin.innerWin, 1, i * (screenSize.first -1) +1);
+        werase(subwin.outerWin);
         box(subwin.outerWin, 0, 0);
+        touchwin(subwin.outerWin);
         wrefresh(subwin.outerWin);
         ++i;
     }
-- 
2.43.0


From ae0389530209c042778fb2455d1887a343849f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 55/59] fix: rows of two documents shifted after an empty
 container replaced by a value

---
 include/levenshteinMatrice.hpp |  8 +++++++-
 src/levenshtein.cpp            | 12 +++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index d0eda94..7a519e1 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -196,7 +196,8 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                         operations[*i] = operations[*j] = eLevenshteinOperator::mod;
                     for (std::pair<const JSonElement *, const JSonElement *> e : (subMatrice[_i -1][_j -1])->getEquivalences())
                         equivalences[e.first] = e.second;
-                    equivalences[*i] = *j;
+                    if (areComparable(*i, *j))
+                        equivalences[*i] = *j;
                     --i;
                     --j;
                     --_i;
@@ -218,6 +219,11 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
         }
 
 
+        /**
+         * @return false if one of the items only has content, or their contents are of different kinds: they are displayed separately
+        **/
+        static bool areComparable(const JSonElement *a, const JSonElement *b);
+
         /**
          * @return true for an entry displayed on one line, whose value is not the one of its equivalence
         **/
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 60f76cc..373bf59 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -56,7 +56,7 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
     {
         LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
         result->_result = std::max(((const JSonContainer*)a)->size(), ((const JSonContainer*)b)->size()) +1;
-        return result->add(a, eLevenshteinOperator::rem)
+        return result->add(a, eLevenshteinOperator::add)
             ->add(b, eLevenshteinOperator::add);
     }
     else if (aIsContainer && bIsContainer)
@@ -83,14 +83,14 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
     {
         LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
         result->_result = ((JSonContainer*)a)->size() +1; //TODO recursive number of all descendants
-        return result->add(a, eLevenshteinOperator::rem)
+        return result->add(a, eLevenshteinOperator::add)
             ->add(b, eLevenshteinOperator::add);
     }
     else if (bIsContainer)
     {
         LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
         result->_result = ((JSonContainer*)b)->size() +1; //TODO recursive number of all descendants
-        return result->add(b, eLevenshteinOperator::rem)
+        return result->add(b, eLevenshteinOperator::add)
             ->add(a, eLevenshteinOperator::add);
     }
     else
@@ -152,6 +152,12 @@ const JSonElement *LevenshteinMatrice::getEquivalence(const JSonElement *e) cons
     return nullptr;
 }
 
+bool LevenshteinMatrice::areComparable(const JSonElement *a, const JSonElement *b)
+{
+    return typeid(*a) == typeid(*b)
+        || !(dynamic_cast<const JSonContainer*>(a) || dynamic_cast<const JSonContainer*>(b));
+}
+
 bool LevenshteinMatrice::isValueChanged(const JSonElement *e) const
 {
     const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(e);
-- 
2.43.0


From d3bc9ff227fcf22671134549cf6b0404906a20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 56/59] fix: end of the message not cleared in diff viewer

---
 src/curseSplitOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5f8432b..834d798 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -457,6 +457,8 @@ bool CurseSplitOutput::redraw()
     short writingDone = (1 << nbInputs) -1;
     unsigned int *cursorInit = (unsigned int *)alloca(sizeof(*cursorInit) * nbInputs);
 
+    werase(bottomLine); // The windows may not cover the end of the message
+    wnoutrefresh(bottomLine);
     workingWin = 0;
     for (t_subWindow &w : subWindows)
     {
-- 
2.43.0


From 18f91ce0aba4198c6354c248e618ab3e03156937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 57/59] fix: stack overflow on deeply nested inputs

---
 include/config.h          |  7 +++++++
 include/jsonException.hh  |  9 +++++++++
 include/streamConsumer.hh |  5 +++++
 src/jsonException.cpp     |  4 ++++
 src/streamConsumer.cpp    | 22 +++++++++++++++++++++-
 5 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/include/config.h b/include/config.h
index 1d3376e..b7fe10c 100644
--- a/include/config.h
+++ b/include/config.h
@@ -18,6 +18,13 @@
 # define INDENT_LEVEL 4
 #endif //INDENT_LEVEL
 
+/**
+ * Max depth of nested objects and arrays, they are read and displayed recursively
+**/
+#ifndef  MAX_DEPTH
+# define MAX_DEPTH 2048
+#endif //MAX_DEPTH
+
 /**
  * Version number
 **/
diff --git a/include/jsonException.hh b/include/jsonException.hh
index 6c405a1..e088e97 100644
--- a/include/jsonException.hh
+++ b/include/jsonException.hh
@@ -63,6 +63,15 @@ class JsonFormatException: public JsonException
         JsonFormatException(unsigned long long offset, LinearHistory &h);
 };
 
+/**
+ * Too many nested objects or arrays
+**/
+class JsonNestingException: public JsonException
+{
+    public:
+        JsonNestingException(unsigned long long offset, LinearHistory &h);
+};
+
 /**
  * Invalid hexadecimal value
 **/
diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 24f3cd6..104865d 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -107,5 +107,10 @@ class StreamConsumer
          * last read input
         **/
         LinearHistory history;
+
+        /**
+         * number of objects and arrays being read
+        **/
+        unsigned int depth;
 };
 
diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index e6503bc..319eaae 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -35,6 +35,10 @@ JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, Line
 JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
+JsonNestingException::JsonNestingException(unsigned long long pos, LinearHistory &h):
+    JsonException("too many nested objects or arrays", pos, h)
+{ }
+
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 74d069a..4d54dee 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -16,7 +16,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr), depth(0)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -67,12 +67,28 @@ const JSonElement * StreamConsumer::getRoot() const
 JSonElement * StreamConsumer::getRoot()
 { return root; }
 
+/**
+ * count the object or array being read
+**/
+class NestingLevel
+{
+    public:
+        NestingLevel(unsigned int &d): depth(++d) {}
+        ~NestingLevel() { --depth; }
+
+    private:
+        unsigned int &depth;
+};
+
 JSonObject *StreamConsumer::readObject(JSonContainer *parent)
 {
+    const NestingLevel level(depth);
     JSonElement *keyObj;
     JSonObject *result = nullptr;
     std::stringstream buf;
 
+    if (depth > MAX_DEPTH)
+        throw JsonNestingException(stream.tellg(), history);
     do
     {
         keyObj = consumeToken(result, buf);
@@ -109,8 +125,12 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
 
 JSonArray *StreamConsumer::readArray(JSonContainer *parent)
 {
+    const NestingLevel level(depth);
     JSonArray *result = nullptr;
     std::stringstream sbuf;
+
+    if (depth > MAX_DEPTH)
+        throw JsonNestingException(stream.tellg(), history);
     JSonElement *child = consumeToken(parent, sbuf);
     std::string buf = sbuf.str();
 
-- 
2.43.0


From 70159af61d4c7b4608ff7887500e1d489fe27d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 58/59] fix: character classes of case insensitive regular
 expressions inverted

---
 src/searchPattern.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index c7d7365..4726590 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -48,10 +48,7 @@ void SearchPattern::evalFlags(const char *s)
     while (*s)
     {
         if (*s == 'i')
-        {
             flags |= SearchPattern::FLAG_CASE;
-            std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
-        }
         else if (*s == 'w')
             flags |= SearchPattern::FLAG_WHOLEWORD;
         else if (*s == 'f')
@@ -68,6 +65,8 @@ void SearchPattern::evalFlags(const char *s)
             typeFlag = SearchPattern::TYPE_OBJKEY;
         s++;
     }
+    if (flags & SearchPattern::FLAG_CASE && !(flags & SearchPattern::FLAG_REGEX)) // \D is not \d
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
     if (!regex && flags & SearchPattern::FLAG_REGEX)
     {
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
-- 
2.43.0


From 2126fbb4f8574c31b54fcc72ba39ce0d5612be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 59/59] fix: a file named ARGS is not dropped when there is a
 literal input too

---
 src/params.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/params.cpp b/src/params.cpp
index eea9de8..11205cc 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -46,7 +46,13 @@ bool Params::read()
         if (!input && !inDiff)
         {
             if (tmp == "--")
-                inputs["ARGS"] = input = new std::stringstream();
+            {
+                std::string name("ARGS");
+
+                while (inputs.contains(name)) // there is a file of that name
+                    name += '_';
+                inputs[name] = input = new std::stringstream();
+            }
             else if (tmp == "-W")
                 strict = false;
             else if (tmp == "--ascii")
-- 
2.43.0

