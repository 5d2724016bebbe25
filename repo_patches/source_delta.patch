From fb3aa27b9aa0b47e409b8f081fd70f65a3787406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 01/87] fix: inserting into or pushing to the front of a YAML
 sequence looped forever

---
 apps/multiphysics/src/input/Yaml.cpp          | 30 ++++++++---------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 33 ++++++++-----------
 2 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 76e86d1..8c3e392 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -305,22 +305,10 @@ public:
         }
 
         if (index >= m_Sequence.size()) {
-            auto it = m_Sequence.end();
-            --it;
-            Node* pNode = new Node;
-            m_Sequence.insert({ it->first, pNode });
-            return pNode;
+            return PushBack();
         }
 
-        auto it = m_Sequence.cbegin();
-        while (it != m_Sequence.cend())
-        {
-            m_Sequence[it->first + 1] = it->second;
-
-            if (it->first == index) {
-                break;
-            }
-        }
+        ShiftUp(index);
 
         Node* pNode = new Node;
         m_Sequence.insert({ index, pNode });
@@ -345,9 +333,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* PushFront()
     {
-        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
-            m_Sequence[it->first + 1] = it->second;
-        }
+        ShiftUp(0);
 
         Node* pNode = new Node;
         m_Sequence.insert({ 0, pNode });
@@ -430,6 +416,16 @@ public:
     {
     }
 
+    // Move every item at or after index one place towards the back.
+    void ShiftUp(const size_t index)
+    {
+        std::map<size_t, Node*> shifted;
+        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
+            shifted[it->first >= index ? it->first + 1 : it->first] = it->second;
+        }
+        m_Sequence.swap(shifted);
+    }
+
     std::map<size_t, Node*> m_Sequence;
 };
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 70adec6..d926ab5 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -191,23 +191,10 @@ namespace Yaml
 
             if(index >= m_Sequence.size())
             {
-                auto it = m_Sequence.end();
-                --it;
-                Node * pNode = new Node;
-                m_Sequence.insert({it->first, pNode});
-                return pNode;
+                return PushBack();
             }
 
-            auto it = m_Sequence.cbegin();
-            while(it != m_Sequence.cend())
-            {
-                m_Sequence[it->first+1] = it->second;
-
-                if(it->first == index)
-                {
-                    break;
-                }
-            }
+            ShiftUp(index);
 
             Node * pNode = new Node;
             m_Sequence.insert({index, pNode});
@@ -216,10 +203,7 @@ namespace Yaml
 
         virtual Node * PushFront()
         {
-            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
-            {
-                m_Sequence[it->first+1] = it->second;
-            }
+            ShiftUp(0);
 
             Node * pNode = new Node;
             m_Sequence.insert({0, pNode});
@@ -256,6 +240,17 @@ namespace Yaml
         {
         }
 
+        // Move every item at or after index one place towards the back.
+        void ShiftUp(const size_t index)
+        {
+            std::map<size_t, Node*> shifted;
+            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
+            {
+                shifted[it->first >= index ? it->first + 1 : it->first] = it->second;
+            }
+            m_Sequence.swap(shifted);
+        }
+
         std::map<size_t, Node*> m_Sequence;
 
     };
-- 
2.43.0


From 6218bbefc9bd8a63409d18a0ad6dff2b1dc12aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 02/87] fix: a nested YAML key without a value was rejected
 when a less indented line follows

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 8c3e392..a628aa0 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3037,7 +3037,7 @@ private:
                 return true;
             }
 
-            newLineOffset = tokenPos + 2;
+            newLineOffset = pLine->Offset + tokenPos + 2;
         }
         else{
             newLineOffset += pLine->Offset;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index d926ab5..1c2e39b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1660,7 +1660,7 @@ namespace Yaml
                     return true;
                 }
 
-                newLineOffset = tokenPos + 2;
+                newLineOffset = pLine->Offset + tokenPos + 2;
             }
             else
             {
-- 
2.43.0


From a0649a0124031a6e6aaa41a49660967aa6f8fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 03/87] fix: bracketed YAML lists kept the blanks around items
 and read [] as one item

---
 .../include/yaml-serializable-containers.h                  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3f0cd3f..c64b7b4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -81,11 +81,15 @@ namespace Yaml {
                 return !std::isspace(ch) && ch != ']';
             }).base(), s.end());
             std::vector<std::string> result;
+            if (s.empty())
+                return result;
             std::stringstream ss(s);
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
-                result.push_back(word);
+                const size_t first = word.find_first_not_of(" \t");
+                const size_t last  = word.find_last_not_of(" \t");
+                result.push_back(first == std::string::npos ? "" : word.substr(first, last - first + 1));
             }
             return result;
         }
-- 
2.43.0


From 2d75e6750ae2803522ba1e66591a3578b22407d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 04/87] fix: an object with an empty list could not be read
 back from its own YAML text

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index c64b7b4..9defc9f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -112,6 +112,11 @@ namespace Yaml {
             Yaml::Node sequence_node;
             if (node.IsScalar()) {
                 auto s = node.As<std::string>();
+                // A key without a value is how an empty list is written.
+                if (s.find_first_not_of(" \t\n") == std::string::npos) {
+                    set_node_to_empty_sequence(sequence_node);
+                    return sequence_node;
+                }
                 if (!looks_like_a_list(s))
                     throw Yaml::ConfigurationException("Failed to parse string: `" + s + "`. Expected a list.");
                 for (auto token : tokenizer(node.As<std::string>(), ','))
-- 
2.43.0


From 2a0c2457dad83b38a960b06ec5832b712a0c6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 05/87] fix: floating point fields lost digits when written to
 YAML

---
 .../include/yaml-serializable-containers.h      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 9defc9f..3df86c5 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -48,6 +48,8 @@
 #include <sstream>
 #include <optional>
 #include <regex>
+#include <limits>
+#include <type_traits>
 
 namespace Yaml {
     namespace {
@@ -146,6 +148,13 @@ namespace Yaml {
     }
 
     namespace Containers {
+        template<typename T>
+        inline T node_value(const std::string& s) {
+            Yaml::Node node;
+            node = s;
+            return node.As<T>();
+        }
+
         template<typename T>
         struct Impl {
             static void deserialize(T& v, Yaml::Node& node, bool raw) {
@@ -155,6 +164,14 @@ namespace Yaml {
             static void serialize(const T& v, Yaml::Node& node) {
                 std::stringstream ss;
                 ss << v;
+                if constexpr (std::is_floating_point<T>::value) {
+                    // Fewest digits that read back as the same value.
+                    for (int digits = 7; digits <= std::numeric_limits<T>::max_digits10 && node_value<T>(ss.str()) != v; digits++) {
+                        ss.str("");
+                        ss.precision(digits);
+                        ss << v;
+                    }
+                }
                 node = ss.str();
             }
         };
-- 
2.43.0


From 96184393ebf9eccf0953710263613bba40638210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 06/87] fix: copies of empty YAML sequences and maps lost their
 type

---
 apps/multiphysics/src/input/Yaml.cpp                |  8 ++++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index a628aa0..595c735 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4232,6 +4232,10 @@ void CopyNode(const Node& from, Node& to)
 
     switch (type) {
     case Node::SequenceType:
+        if (from.Size() == 0) {
+            to.PushBack();
+            to.Erase(0);
+        }
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to.PushBack();
@@ -4239,6 +4243,10 @@ void CopyNode(const Node& from, Node& to)
         }
         break;
     case Node::MapType:
+        if (from.Size() == 0) {
+            to[""];
+            to.Erase("");
+        }
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to[(*it).first];
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 1c2e39b..e240b4c 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2705,6 +2705,11 @@ namespace Yaml
         switch(type)
         {
         case Node::SequenceType:
+            if(from.Size() == 0)
+            {
+                to.PushBack();
+                to.Erase(0);
+            }
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
@@ -2713,6 +2718,11 @@ namespace Yaml
             }
             break;
         case Node::MapType:
+            if(from.Size() == 0)
+            {
+                to[""];
+                to.Erase("");
+            }
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
-- 
2.43.0


From dfbad133c214e640acd203338fd76d2ff6399a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 07/87] fix: a YAML key without a value was read as a line
 break

---
 apps/multiphysics/src/input/Yaml.cpp                | 5 +++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 595c735..be50db0 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3285,6 +3285,11 @@ private:
                 data += " ";
             }
 
+            // Blank lines alone are an empty value.
+            if (data.find_first_not_of(" \n") == std::string::npos) {
+                data = "";
+            }
+
             if (ValidateQuote(data) == false) {
                 throw ParsingException(ExceptionMessage(g_ErrorInvalidQuote, *pFirstLine));
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index e240b4c..08e7b86 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1938,6 +1938,12 @@ namespace Yaml
                     data += " ";
                 }
 
+                // Blank lines alone are an empty value.
+                if(data.find_first_not_of(" \n") == std::string::npos)
+                {
+                    data = "";
+                }
+
                 if(ValidateQuote(data) == false)
                 {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidQuote, *pFirstLine));
-- 
2.43.0


From 1ba04b56c5e03be82f8bce4483173843195c42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 08/87] fix: a YAML list item without a value swallowed the
 next item or ended the document

---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index be50db0..4068b20 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2958,6 +2958,12 @@ private:
 
         const size_t valueStart = pLine->Data.find_first_not_of(" \t", 1);
         if (valueStart == std::string::npos) {
+            // An item without a value, unless the value is on the following lines.
+            if (it == m_Lines.end() || (*it)->Offset <= pLine->Offset) {
+                it = m_Lines.insert(it, new ReaderLine("", pLine->No, pLine->Offset + 2));
+                pLine->Data = "";
+                return false;
+            }
             return true;
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 08e7b86..6b1456d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1570,6 +1570,13 @@ namespace Yaml
             const size_t valueStart = pLine->Data.find_first_not_of(" \t", 1);
             if (valueStart == std::string::npos)
             {
+                // An item without a value, unless the value is on the following lines.
+                if(it == m_Lines.end() || (*it)->Offset <= pLine->Offset)
+                {
+                    it = m_Lines.insert(it, new ReaderLine("", pLine->No, pLine->Offset + 2));
+                    pLine->Data = "";
+                    return false;
+                }
                 return true;
             }
 
-- 
2.43.0


From 8543575f6f30c3cce6a33c9bd73afb719c565c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 09/87] fix: iterating over a YAML scalar or empty node never
 ended

---
 apps/multiphysics/src/input/Yaml.cpp                | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 4068b20..8ac2c6f 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1762,7 +1762,7 @@ bool Iterator::operator ==(const Iterator& it)
         break;
     }
 
-    return false;
+    return true; // Two iterators of a node without items.
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -1999,7 +1999,7 @@ bool ConstIterator::operator ==(const ConstIterator& it)
         break;
     }
 
-    return false;
+    return true; // Two iterators of a node without items.
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 6b1456d..981ced8 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -780,7 +780,7 @@ namespace Yaml
             break;
         }
 
-        return false;
+        return true; // Two iterators of a node without items.
     }
 
     bool Iterator::operator != (const Iterator & it)
@@ -933,7 +933,7 @@ namespace Yaml
             break;
         }
 
-        return false;
+        return true; // Two iterators of a node without items.
     }
 
     bool ConstIterator::operator != (const ConstIterator & it)
-- 
2.43.0


From 4d17a7c2ab838d5e623c017edccdacaac3066b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 10/87] fix: the second # or : inside one quoted YAML text was
 taken as a comment or key

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 8ac2c6f..eff7c2a 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4111,7 +4111,7 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
             return tokenPos;
         }
         preQuoteCount++;
-        if (tokenPos <= currentQuote.second) {
+        while (tokenPos <= currentQuote.second) {
             // Find next token
             if (tokenPos + 1 == input.size()) {
                 return std::string::npos;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 981ced8..68433b5 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2622,7 +2622,7 @@ namespace Yaml
                 return tokenPos;
             }
             preQuoteCount++;
-            if(tokenPos <= currentQuote.second)
+            while(tokenPos <= currentQuote.second)
             {
                 // Find next token
                 if(tokenPos + 1 == input.size())
-- 
2.43.0


From 0487a0a4d200b214ab0f6bb12da0a3df7a1bdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 11/87] fix: block scalars written on a new line after their
 key were not indented

---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index eff7c2a..df397e9 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3847,6 +3847,9 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
 
         // Literal
         if (lines.size() > 1) {
+            if (useLevel) {
+                stream << std::string(level, ' ');
+            }
             stream << "|";
         }
         // Folded/plain
@@ -3866,6 +3869,9 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
                 break;
             }
             else{
+                if (useLevel) {
+                    stream << std::string(level, ' ');
+                }
                 stream << ">";
             }
         }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 68433b5..fb438ff 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2450,6 +2450,10 @@ namespace Yaml
                 // Literal
                 if(lines.size() > 1)
                 {
+                    if(useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
                     stream << "|";
                 }
                 // Folded/plain
@@ -2474,6 +2478,10 @@ namespace Yaml
                     }
                     else
                     {
+                        if(useLevel)
+                        {
+                            stream << std::string(level, ' ');
+                        }
                         stream << ">";
                     }
                 }
-- 
2.43.0


From ac9e186e9e3e0cee67291df3f70ed05192a70cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:45 +0000
Subject: [PATCH 12/87] fix: erasing an item of a YAML sequence left a hole in
 its positions

---
 apps/multiphysics/src/input/Yaml.cpp                |  9 ++++++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index df397e9..bbb73bb 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -393,7 +393,14 @@ public:
             return;
         }
         delete it->second;
-        m_Sequence.erase(index);
+        m_Sequence.erase(it);
+
+        // Close the gap: the items behind move one place to the front.
+        std::map<size_t, Node*> shifted;
+        for (auto item = m_Sequence.cbegin(); item != m_Sequence.cend(); item++) {
+            shifted[item->first > index ? item->first - 1 : item->first] = item->second;
+        }
+        m_Sequence.swap(shifted);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index fb438ff..16ff3dd 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -233,7 +233,15 @@ namespace Yaml
                 return;
             }
             delete it->second;
-            m_Sequence.erase(index);
+            m_Sequence.erase(it);
+
+            // Close the gap: the items behind move one place to the front.
+            std::map<size_t, Node*> shifted;
+            for(auto item = m_Sequence.cbegin(); item != m_Sequence.cend(); item++)
+            {
+                shifted[item->first > index ? item->first - 1 : item->first] = item->second;
+            }
+            m_Sequence.swap(shifted);
         }
 
         virtual void Erase(const std::string & key)
-- 
2.43.0


From 0c6e524560816817c5a393fff7485f5ad70981ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:42 +0000
Subject: [PATCH 13/87] fix: velocity boundary conditions removed velocity
 component by component, not along their direction

---
 .../boundary_conditions/velocity/piston_velocity_bc.hpp   | 8 +++++++-
 .../velocity/reflected_velocity_bc.hpp                    | 8 +++++++-
 .../velocity/time_varying_velocity_bc.hpp                 | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
index 54b0e39..af60d91 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
@@ -116,10 +116,16 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // velocity along the direction
+        double vel_dir = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_dir += node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
             //  direction normal = vel_bc_global_vars(bdy_set,dim)/mag
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+            node_vel(bdy_node_gid, dim) -= vel_dir * (vel_bc_global_vars(bdy_set,dim)/mag);
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel * (vel_bc_global_vars(bdy_set,dim)/mag);
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
index 5657d8a..bbc96d2 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
@@ -76,8 +76,14 @@ static void velocity(const swage::Mesh& mesh,
     } // will make sure it's a unit vector
 
     // Remove the velocity in the specified direction
+    // velocity along the direction, times the length of the direction vector
+    double vel_dot_dir = 0.0;
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
-        node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        vel_dot_dir += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim);
+    }
+
+    for (size_t dim = 0; dim<mesh.num_dims; dim++){
+        node_vel(bdy_node_gid, dim) -= vel_dot_dir*vel_bc_global_vars(bdy_set,dim)/mag;
     }
 
     return;
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
index 50dd6e1..c075ab8 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
@@ -114,9 +114,15 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // velocity along the direction
+        double vel_dir = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_dir += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+            node_vel(bdy_node_gid, dim) -= vel_dir*vel_bc_global_vars(bdy_set,dim)/mag;
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel*vel_bc_global_vars(bdy_set,dim)/mag;
-- 
2.43.0


From 90ab9d8b09f6e36fd4f0a464d468789a001c34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 14/87] fix: a partial fill looked up its material by the wrong
 fill and could drop or duplicate materials

---
 apps/multiphysics/src/common/src/region_fill.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 19a27d5..111f1ec 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1420,11 +1420,6 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // the number of materials saved to this element, initialized to 0 at start of code
     size_t fill_storage_lid = num_fills_saved_in_elem(elem_gid);
 
-    // check on exceeding 3 materials per element
-    if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
-        Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
-    } // end if check
-
 
     // material id assigned to this fill
     const size_t mat_id = region_fills(fill_id).material_id;
@@ -1435,7 +1430,7 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     for (size_t a_fill=0; a_fill < num_fills_saved_in_elem(elem_gid); a_fill++){
 
         // get the mat_id in this fill
-        size_t a_mat_id = region_fills(a_fill).material_id;
+        size_t a_mat_id = region_fills(elem_fill_ids(elem_gid, a_fill)).material_id;
         if(mat_id == a_mat_id){
             // overwrite the existing material lid with new fill instructions
             fill_storage_lid = a_fill;  
@@ -1448,6 +1443,12 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // There will now be at least 1 material so we want
     // num_fills_saved_in_elem >= 1, and it is intialized at 0 
     if (check_mat_exists == false){
+
+        // check on exceeding max number of materials per element
+        if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
+            Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
+        } // end if check
+
         // we are adding a new material, so increment the number of saved
         num_fills_saved_in_elem(elem_gid) += 1;
     } // end check if material is a new one
-- 
2.43.0


From d3a6adf8fbfc3ad973be5856f8f1388f301d7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 15/87] fix: an eroded material erased the corner forces of the
 other materials in its element

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp   | 2 +-
 .../multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
index 79391ed..b3eb704 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
@@ -210,7 +210,7 @@ void SGH3D::get_force(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { // material(mat_id).blank_mat_id)
                 for (size_t dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
+                    // no contribution to corner_force(corner_gid, dim), it holds the other materials in this element
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
index 55583c2..6fa971d 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
@@ -217,7 +217,7 @@ void SGHRZ::get_force_rz(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { 
                 for (int dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
+                    // no contribution to corner_force(corner_gid, dim), it holds the other materials in this element
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
-- 
2.43.0


From eae22b9b59737657a06b271d2010d07fb2f3a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 16/87] fix: the directional dissipation models selected the
 plain ones

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..aa639a3 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -638,7 +638,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARS;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARS;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSDissipationModel::calc_dissipation;
                             });
                             break;
                         //
@@ -652,7 +652,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARSRZ;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARSRZ;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSRZDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSRZDissipationModel::calc_dissipation;
                             });
                             break;                        
                         default:
-- 
2.43.0


From d4d8cc734265cc3d1ffaae4dee539b5796075fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 17/87] fix: voxel files were read one cell short and sampled
 half a cell off

---
 .../src/common/src/region_fill.cpp            | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 111f1ec..1f9ca09 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1016,7 +1016,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_i - 1) {
+            while (num_saved < num_points_i) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1057,7 +1057,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_j - 1) {
+            while (num_saved < num_points_j) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1098,7 +1098,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_k - 1) {
+            while (num_saved < num_points_k) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1132,10 +1132,10 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
     num_elems_j = num_points_j - 1;
     num_elems_k = num_points_k - 1;
 
-    // center to center distance between first and last elem along each edge
-    double Lx = (pt_coords_x(num_points_i - 2) - pt_coords_x(0));
-    double Ly = (pt_coords_y(num_points_j - 2) - pt_coords_y(0));
-    double Lz = (pt_coords_z(num_points_k - 2) - pt_coords_z(0));
+    // distance between the first and last node along each edge
+    double Lx = (pt_coords_x(num_points_i - 1) - pt_coords_x(0));
+    double Ly = (pt_coords_y(num_points_j - 1) - pt_coords_y(0));
+    double Lz = (pt_coords_z(num_points_k - 1) - pt_coords_z(0));
 
     // spacing between elems
     dx = Lx / ((double) num_elems_i);
@@ -1143,9 +1143,9 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
     dz = Lz / ((double) num_elems_k);
 
     // element mesh origin
-    orig_x = 0.5 * (pt_coords_x(0) + pt_coords_x(1)),
-    orig_y = 0.5 * (pt_coords_y(0) + pt_coords_y(1)),
-    orig_z = 0.5 * (pt_coords_z(0) + pt_coords_z(1)),
+    orig_x = pt_coords_x(0);
+    orig_y = pt_coords_y(0);
+    orig_z = pt_coords_z(0);
 
     // look for CELLS
     i = 0;
@@ -1193,7 +1193,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_elems - 1) {
+            while (num_saved < num_elems) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1337,14 +1337,14 @@ size_t fill_geometric_region(const swage::Mesh& mesh,
 
                 fill_this = 0; // default is no, don't fill it
 
-                // find the closest element in the voxel mesh to this element
+                // find the element in the voxel mesh that contains the center of this element
                 double i0_real = (mesh_coords(0) - orig_x - region_fills(f_id).origin[0]) / (voxel_dx);
                 double j0_real = (mesh_coords(1) - orig_y - region_fills(f_id).origin[1]) / (voxel_dy);
                 double k0_real = (mesh_coords(2) - orig_z - region_fills(f_id).origin[2]) / (voxel_dz);
 
-                int i0 = (int)i0_real;
-                int j0 = (int)j0_real;
-                int k0 = (int)k0_real;
+                int i0 = (int)floor(i0_real);
+                int j0 = (int)floor(j0_real);
+                int k0 = (int)floor(k0_real);
 
                 // look for the closest element in the voxel mesh
                 int elem_id0 = get_id_device(i0, j0, k0, voxel_num_i, voxel_num_j);
-- 
2.43.0


From dbb702aafc2fdb9a26ed340412c348b61b3c2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 18/87] fix: radial and spherical volume fractions ignored
 their origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 1f9ca09..a509bf0 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1511,7 +1511,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 2; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
@@ -1532,7 +1532,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 3; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
-- 
2.43.0


From 7f9493489881ae0b86fdc7481ebd2f6ea64f164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 19/87] fix: nodal initial conditions between regions depended
 on the thread schedule

---
 .../src/common/src/region_fill.cpp            | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index a509bf0..c34b203 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -548,17 +548,40 @@ void fill_regions(
 
             } // end loop over gauss points
 
+        } // loop over the fills in this elem
+    }); // end FOR_ALL elem loop
+    Kokkos::fence();
+
+    //---------
+    // parallel loop over nodes in the mesh and set specified state. A node is painted by the
+    // fills of its elements in the order of the element ids, independent of the thread schedule
+    //---------
+    FOR_ALL(node_gid, 0, mesh.num_nodes, {
 
-            // --- painting nodal variables ---  
+        // node coords(node_gid,dim)
+        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
 
-            // loop over the nodes of this element and apply velocity
-            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
-                
-                // get the mesh node index
-                size_t node_gid = mesh.nodes_in_elem(elem_gid, node_lid);
+        size_t next_elem_gid = 0; // the smallest element id that has not painted this node
 
-                // node coords(node_gid,dim)
-                ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+        for (size_t count = 0; count < mesh.num_corners_in_node(node_gid); count++) {
+
+            // find the element connected to this node with the next smallest id
+            size_t elem_gid = mesh.num_elems;
+            for (size_t elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++) {
+                size_t this_elem_gid = mesh.elems_in_node(node_gid, elem_lid);
+                if (this_elem_gid >= next_elem_gid && this_elem_gid < elem_gid) {
+                    elem_gid = this_elem_gid;
+                }
+            } // end loop over the elems in the node
+            if (elem_gid == mesh.num_elems) {
+                break;
+            }
+            next_elem_gid = elem_gid + 1;
+
+            for(size_t bin=0; bin<elem_num_mats_saved_in_elem(elem_gid); bin++){
+
+                // get the region fill id
+                size_t fill_id = elem_fill_ids(elem_gid, bin);
 
                 // paint the velocity onto the nodes of the mesh
                 if(node_vel.size()>0){
@@ -586,9 +609,8 @@ void fill_regions(
                                  region_fills(fill_id).temperature_field);
                 }
 
-            } // end loop over the nodes in elem
-
-        } // loop over the fills in this elem
+            } // loop over the fills in this elem
+        } // end loop over the elems in the node
     }); // end FOR_ALL node loop
     Kokkos::fence();
 
-- 
2.43.0


From 0c94cf9ac0b4990020fe01ca4407a09f69fc4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 20/87] fix: spherical nodal fields on 2D meshes read the
 coordinate of another node

---
 apps/multiphysics/src/common/src/region_fill.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index c34b203..baedc83 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -559,7 +559,7 @@ void fill_regions(
     FOR_ALL(node_gid, 0, mesh.num_nodes, {
 
         // node coords(node_gid,dim)
-        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), mesh.num_dims);
 
         size_t next_elem_gid = 0; // the smallest element id that has not painted this node
 
@@ -1784,13 +1784,13 @@ void paint_scalar(const DCArrayKokkos<double>& field_scalar,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
@@ -1923,13 +1923,13 @@ void paint_vector(const DCArrayKokkos<double>& vector_field,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
@@ -2070,13 +2070,13 @@ void paint_node_scalar(const double scalar,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = node_coords(node_gid, dim);
                         radius_val += node_coords(node_gid, dim) * node_coords(node_gid, dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
-- 
2.43.0


From f125e952db2cf34b1c24eca3a47e40569af7208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 21/87] fix: mixing specific and extensive internal energies
 left the extensive field unallocated

---
 apps/multiphysics/src/common/include/state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/state.hpp b/apps/multiphysics/src/common/include/state.hpp
index e2d8e33..3ab7c63 100644
--- a/apps/multiphysics/src/common/include/state.hpp
+++ b/apps/multiphysics/src/common/include/state.hpp
@@ -123,7 +123,7 @@ struct fillGaussState_t
                     }
                     break;
                 case fill_gauss_state::internal_energy:
-                    if (sie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
+                    if (ie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
                     if (use_sie.size() == 0){ 
                         this->use_sie = DCArrayKokkos<bool>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_use_sie");
                         use_sie.set_values(false);
-- 
2.43.0


From dde402f1f6bb08691b8f89ed399aff5f9bee4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 22/87] fix: the third component of the nodal coordinates field
 was written to a single node

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a6d9194..327e33c 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -4092,7 +4092,7 @@ public:
                             node_vector_fields(node_coord_id, node_gid, 2) = 0.0;
                         }
                         else{
-                            node_vector_fields(node_coord_id, node_coord_id, 2) = Node.coords(node_gid, 2);
+                            node_vector_fields(node_coord_id, node_gid, 2) = Node.coords(node_gid, 2);
                         } // end if
 
                     }); // end parallel for
-- 
2.43.0


From 53bafcbb3fd70b70a674c69bf9b048269a50a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 23/87] fix: the vorticity limiter of the RZ dissipation was
 switched by the sign of the curl

---
 .../src/material_models/artificial_viscosity/mars.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
index 786812d..c7b5fa2 100644
--- a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
+++ b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
@@ -712,7 +712,7 @@ namespace MARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
         
     // ---- Multidirectional Approximate Riemann solver (MARS) ----
@@ -986,7 +986,7 @@ namespace DirMARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
 
     // --- Calculate edge normals of a corner ---
-- 
2.43.0


From 330eeae8ca33f1ed1f935da6ab4ac727b08fac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 24/87] fix: RZ nodal masses of mixed elements ignored the
 volume fractions

---
 .../src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp    | 2 ++
 .../src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp         | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
index ac397ab..fc91666 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
@@ -396,6 +396,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
                          const DCArrayKokkos<double>& node_mass,
                          const DCArrayKokkos<double>& corner_mass,
                          const DRaggedRightArrayKokkos<double>& MaterialPoints_den,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
                          const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
                          const size_t num_mat_elems,
                          const size_t mat_id);
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
index 0fe78da..617e4b5 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
@@ -124,6 +124,8 @@ void SGHRZ::setup(SimulationParameters_t& SimulationParamaters,
                             State.node.mass,
                             State.corner.mass,
                             State.MaterialPoints.den,
+                            State.MaterialPoints.volfrac,
+                            State.MaterialPoints.geo_volfrac,
                             State.MaterialToMeshMaps.elem_in_mat_elem,
                             State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                             mat_id);
@@ -158,6 +160,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
                          const DCArrayKokkos<double>& node_mass,
                          const DCArrayKokkos<double>& corner_mass,
                          const DRaggedRightArrayKokkos<double>& MaterialPoints_den,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
                          const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
                          const size_t num_mat_elems,
                          const size_t mat_id)
@@ -179,7 +183,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
         // loop over the corners of the element and calculate the mass
         for (size_t corner_lid = 0; corner_lid < 4; corner_lid++) {
             size_t corner_gid = mesh.corners_in_elem(elem_gid, corner_lid);
-            corner_mass(corner_gid) += corner_areas(corner_lid) * MaterialPoints_den(mat_id, mat_elem_sid); // node radius is added later
+            corner_mass(corner_gid) += corner_areas(corner_lid) * MaterialPoints_den(mat_id, mat_elem_sid) *
+                                       MaterialPoints_volfrac(mat_id, mat_elem_sid) * MaterialPoints_geo_volfrac(mat_id, mat_elem_sid); // node radius is added later
         } // end for over corners
     });
 
-- 
2.43.0


From 28a292596816e44ead91d1306fef995afcae8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 25/87] fix: the radius check of polar meshes looked at the
 axial coordinate

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 327e33c..5d06d2a 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -1517,9 +1517,11 @@ public:
                 node.coords.host(node_gid, 0) = origin[0] + r_i * cos(theta_j);
                 node.coords.host(node_gid, 1) = origin[1] + r_i * sin(theta_j);
 
-                if(node.coords.host(node_gid, 0) < 0.0){
+                // the coordinates are (z,r), the radius may be negative on the axis by round-off only
+                if(node.coords.host(node_gid, 1) < -1.0e-12*outer_radius){
                     throw std::runtime_error("**** NODE RADIUS FOR RZ MESH MUST BE POSITIVE ****");
                 }
+                node.coords.host(node_gid, 1) = fmax(0.0, node.coords.host(node_gid, 1));
 
             } // end for i
         } // end for j
-- 
2.43.0


From ff7a497b42f62f551a0b797b2505c99b345a7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 26/87] fix: quadrilaterals of 2D Ensight and VTK mesh files
 were read twisted

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 5d06d2a..7818d25 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -499,8 +499,8 @@ public:
         int convert_ensight_to_ijk[8];
         convert_ensight_to_ijk[0] = 0;
         convert_ensight_to_ijk[1] = 1;
-        convert_ensight_to_ijk[2] = 3;
-        convert_ensight_to_ijk[3] = 2;
+        convert_ensight_to_ijk[2] = (num_dims == 3) ? 3 : 2; // quads keep the ensight order
+        convert_ensight_to_ijk[3] = (num_dims == 3) ? 2 : 3;
         convert_ensight_to_ijk[4] = 4;
         convert_ensight_to_ijk[5] = 5;
         convert_ensight_to_ijk[6] = 7;
@@ -846,8 +846,8 @@ public:
         size_t convert_ensight_to_ijk[8];
         convert_ensight_to_ijk[0] = 0;
         convert_ensight_to_ijk[1] = 1;
-        convert_ensight_to_ijk[2] = 3;
-        convert_ensight_to_ijk[3] = 2;
+        convert_ensight_to_ijk[2] = (num_dims == 3) ? 3 : 2; // quads keep the ensight order
+        convert_ensight_to_ijk[3] = (num_dims == 3) ? 2 : 3;
         convert_ensight_to_ijk[4] = 4;
         convert_ensight_to_ijk[5] = 5;
         convert_ensight_to_ijk[6] = 7;
-- 
2.43.0


From f7b755f0f34a11a9f74bbfd77b98179140c35c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 27/87] fix: 2D mesh files were read as 3D ones

---
 apps/multiphysics/src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index 8ff09fe..e2588c9 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -88,7 +88,7 @@ void Driver::initialize()
         mesh_reader.read_mesh(mesh, 
                               State,
                               SimulationParamaters.mesh_input, 
-                              num_dims);
+                              SimulationParamaters.mesh_input.num_dims);
     }
     else if (SimulationParamaters.mesh_input.source == mesh_input::generate) {
         mesh_builder.build_mesh(mesh, 
-- 
2.43.0


From 563ea21162592f643d0fb81d3138b828dddd1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 28/87] fix: the moving heat source started at the origin
 instead of its tool path

---
 .../Solvers/SGTM_solver_3D/src/sgtm_execute.cpp    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f86663e..50d4398 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -147,10 +147,16 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
     // ---- Set up sphere to act as a moving heat source ---- //
     DCArrayKokkos<double> sphere_position(3, "sphere_position");
 
-    sphere_position.host(0) = 0.0;
-    sphere_position.host(1) = 0.0;
-    sphere_position.host(2) = 0.0;
-    sphere_position.update_device();
+    // start where the tool path is at the starting time
+    RUN({
+        double x = 0.0;
+        double y = 0.0;
+        double z = 0.0;
+        path.get_position(time_value, x, y, z);
+        sphere_position(0) = x;
+        sphere_position(1) = y;
+        sphere_position(2) = z;
+    });
 
 
     FOR_ALL(node_gid, 0, mesh.num_nodes, {
-- 
2.43.0


From 9fe932b8e1a047b4c8f3899ca9d72a9dde636aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 29/87] fix: heat conduction used the specific heat of the
 first material everywhere

---
 .../SGTM_solver_3D/include/sgtm_solver_3D.hpp |  2 +-
 .../Solvers/SGTM_solver_3D/src/heat_flux.cpp  |  6 ++---
 .../SGTM_solver_3D/src/sgtm_execute.cpp       | 23 ++++++++++++++++++-
 .../SGTM_solver_3D/src/temperature_sgtm.cpp   |  4 ++--
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 66a5bec..bac0225 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -282,7 +282,7 @@ public:
             const DCArrayKokkos<double>& node_temp_n0,
             const DCArrayKokkos<double>& node_mass,
             const DCArrayKokkos<double>& node_q_transfer,
-            const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+            const DCArrayKokkos<double>& elem_specific_heat,
             const double rk_alpha,
             const double dt) const;
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index cb896b2..e779417 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -153,9 +153,9 @@ void SGTM3D::get_heat_flux(
         }
 
         // ---- Save the temperature gradient to the material point for writing out ---- //
-        MaterialPoints_temp_grad(mat_id, elem_gid, 0) = temp_grad(0);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 1) = temp_grad(1);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 2) = temp_grad(2);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 0) = temp_grad(0);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 1) = temp_grad(1);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 2) = temp_grad(2);
 
         // ---- Calculate the heat flux at the material point ---- //
         double conductivity = MaterialPoints_conductivity(mat_id, mat_point_sid); // NOTE: Consider moving this to properties and evaluate instead of save
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 50d4398..cb5b700 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -179,6 +179,27 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         } // end for mat_id
     }
 
+    // ---- The specific heat of the elements, the mass average over their materials ---- //
+    DCArrayKokkos<double> elem_specific_heat(mesh.num_elems, "elem_specific_heat");
+    DCArrayKokkos<double> elem_mass(mesh.num_elems, "elem_mass");
+    elem_specific_heat.set_values(0.0);
+    elem_mass.set_values(0.0);
+
+    for(size_t mat_id = 0; mat_id < num_mats; mat_id++){
+        FOR_ALL(mat_elem_sid, 0, State.MaterialToMeshMaps.num_mat_elems.host(mat_id), {
+            const size_t elem_gid = State.MaterialToMeshMaps.elem_in_mat_elem(mat_id, mat_elem_sid);
+            const double mass = State.MaterialPoints.mass(mat_id, mat_elem_sid);
+            elem_specific_heat(elem_gid) += mass*State.MaterialPoints.specific_heat(mat_id, mat_elem_sid);
+            elem_mass(elem_gid) += mass;
+        }); // end parallel for over mat elems
+    } // end for mat_id
+
+    FOR_ALL(elem_gid, 0, mesh.num_elems, {
+        if (elem_mass(elem_gid) > 0.0) {
+            elem_specific_heat(elem_gid) /= elem_mass(elem_gid);
+        }
+    }); // end parallel for over elems
+
     // ---- loop over the max number of time integration cycles ---- //
     for (size_t cycle = 0; cycle < cycle_stop; cycle++) {
 
@@ -332,7 +353,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.temp_n0,
                 State.node.mass,
                 State.node.q_transfer,
-                State.MaterialPoints.specific_heat, // Note: Need to make this a node field, and calculate in the material loop
+                elem_specific_heat,
                 rk_alpha,
                 dt);
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
index 7a1a626..6fe10a8 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
@@ -57,7 +57,7 @@ void SGTM3D::update_temperature(
     const DCArrayKokkos<double>& node_temp_n0,
     const DCArrayKokkos<double>& node_mass,
     const DCArrayKokkos<double>& node_q_transfer,
-    const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+    const DCArrayKokkos<double>& elem_specific_heat,
     const double rk_alpha,
     const double dt) const
 {
@@ -77,7 +77,7 @@ void SGTM3D::update_temperature(
         double Cp = 0.0;
         for(int elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++){ // NOTE: num_corners_in_node = num_elems_in_node
             size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
-            Cp += mat_pt_specific_heat(0,elem_gid)/mesh.num_corners_in_node(node_gid);
+            Cp += elem_specific_heat(elem_gid)/mesh.num_corners_in_node(node_gid);
         }
 
         // std::cout << "Cp*mass = " << Cp * node_mass(node_gid) << std::endl;
-- 
2.43.0


From ecc75a388b9b3862e4fa6752481c6822f024664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 30/87] fix: convection conditions ignored the temperatures and
 film coefficients of the deck

---
 .../src/Solvers/SGTM_solver_3D/src/boundary.cpp          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
index 86895c9..ac71b09 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
@@ -199,9 +199,16 @@ void SGTM3D::boundary_convection(const swage::Mesh& mesh,
             // Partition the total surface area to the corner patches
             double patch_area = surface_area/4.0;
 
-            // NOTE: Add parsing to the following variables
+            // reference and film temperatures from the input, or the defaults
+            const size_t num_vars = BoundaryConditions.num_temperature_bc_global_vars(bdy_set);
             double ref_temp = 293.15; // room temp in Kelvin
             double h_film = 100.0;
+            if (num_vars > 0) {
+                ref_temp = BoundaryConditions.temperature_bc_global_vars(bdy_set, 0);
+            }
+            if (num_vars > 1) {
+                h_film = BoundaryConditions.temperature_bc_global_vars(bdy_set, 1);
+            }
 
             // ---- Calculate the flux through each patch ---- //
             for(int node_lid = 0; node_lid < mesh.num_nodes_in_patch; node_lid++){
-- 
2.43.0


From 8d789bf487a8fea9bcc877b91df5f4086ee1db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 31/87] fix: graphics times were lost after dumps on iterations
 and in later solvers

---
 .../src/Solvers/SGH_solver_3D/src/sgh_execute.cpp            | 5 ++++-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp         | 5 ++++-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp          | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 5b6295d..80314b1 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -611,7 +611,10 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
                                    SGH3D_State::required_material_pt_state,
                                    this->solver_id);
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            // dumps on iterations do not shift the times of the next dumps
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 21e4139..70e43ea 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -459,7 +459,10 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            // dumps on iterations do not shift the times of the next dumps
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index cb5b700..e22f257 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -427,7 +427,10 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            // dumps on iterations do not shift the times of the next dumps
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
         } // end if
 
-- 
2.43.0


From f419852359ca988d0b07f42d9c98e14a101b9d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 32/87] fix: the state at the cycle limit was never written

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp             | 2 +-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 80314b1..a831f80 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -587,7 +587,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 70e43ea..ad29684 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -434,7 +434,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index e22f257..6a0e52f 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -400,7 +400,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index f484a9a..c0e4eb2 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -183,7 +183,7 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 75ba514..1cca9ec 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -307,7 +307,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
-- 
2.43.0


From f3349cabb311c57f1e521765d152cd79f733df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 33/87] fix: heat conduction solvers applied the temperature
 conditions of all solvers

---
 .../Solvers/SGTM_solver_3D/src/boundary.cpp   | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
index ac71b09..79e9691 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
@@ -53,8 +53,11 @@ void SGTM3D::boundary_temperature(const swage::Mesh& mesh,
                                   DCArrayKokkos<double>& node_temp,
                                   const double time_value) const
 {
-    // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
+    // ---- Loop over the temperature boundary sets of this solver ---- //
+    const size_t num_temperature_bdy_sets = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id);
+    for (size_t bc_lid = 0; bc_lid < num_temperature_bdy_sets; bc_lid++) {
+
+        const size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
         
         // ---- Skip non temperature BCs ---- //
         if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::constantTemperatureBC) continue;
@@ -105,8 +108,11 @@ void SGTM3D::boundary_convection(const swage::Mesh& mesh,
                                  const DCArrayKokkos<double>& node_coords,
                                  const double time_value) const
 {
-    // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
+    // ---- Loop over the temperature boundary sets of this solver ---- //
+    const size_t num_temperature_bdy_sets = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id);
+    for (size_t bc_lid = 0; bc_lid < num_temperature_bdy_sets; bc_lid++) {
+
+        const size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
         
         // ---- Skip non convection BCs ---- //
         if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::convectionTemperatureBC) continue;
@@ -252,8 +258,11 @@ void SGTM3D::boundary_radiation(const swage::Mesh& mesh,
                                 const DCArrayKokkos<double>& node_coords,
                                 const double time_value) const
 {
-    // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
+    // ---- Loop over the temperature boundary sets of this solver ---- //
+    const size_t num_temperature_bdy_sets = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id);
+    for (size_t bc_lid = 0; bc_lid < num_temperature_bdy_sets; bc_lid++) {
+
+        const size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
         
         // ---- Skip non radiation BCs ---- // 
          if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::radiationTemperatureBC) continue;
-- 
2.43.0


From 4ae25c246d51ef375ceaa9b1bc9e78c77fa0ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 34/87] fix: the nodal level set gradient had the wrong sign

---
 .../src/Solvers/level_set_solver/src/solver_functions.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 23a4078..f61f82c 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -89,7 +89,7 @@ void LevelSet::nodal_gradient(
         }
 
         if(mesh.num_dims==3){
-            // get the B matrix which are the inward corner area normals or the elem
+            // get the B matrix which are the outward corner area normals of the elem
             geometry::get_bmatrix(area_normal,
                                   elem_gid,
                                   node_coords,
@@ -109,7 +109,7 @@ void LevelSet::nodal_gradient(
 
             // save the corner normal (inward pointing from the element)
             for (size_t dim = 0; dim < mesh.num_dims; dim++) {
-                corner_normal(corner_gid, dim) = area_normal(corner_lid, dim);
+                corner_normal(corner_gid, dim) = -area_normal(corner_lid, dim);
             } // end loop over dimension
 
             // save the corner volume
-- 
2.43.0


From 3b8de21eef9315babd4b7e4c23afe6ade880e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 35/87] fix: the 2D level set smoothed its sign over the volume
 of a ring instead of the area

---
 .../Solvers/level_set_solver/include/level_set_solver.hpp | 1 +
 .../Solvers/level_set_solver/src/level_set_execute.cpp    | 1 +
 .../src/Solvers/level_set_solver/src/solver_functions.cpp | 8 +++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp b/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
index a4e8386..e37d418 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
@@ -196,6 +196,7 @@ public:
             const DCArrayKokkos<double>& GaussPoints_level_set_n,
             const DCArrayKokkos<double>& GaussPoints_vol,
             const DCArrayKokkos<double>& Corner_normal,
+            const DCArrayKokkos<double>& Corner_volume,
             const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
             const size_t num_mat_elems,
             const size_t mat_id,
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 1cca9ec..a98c0b2 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -279,6 +279,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
                         State.GaussPoints.level_set_n0,
                         State.GaussPoints.vol,
                         State.corner.normal,
+                        State.corner.volume,
                         State.MaterialToMeshMaps.elem_in_mat_elem,
                         State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                         mat_id,
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index f61f82c..28e7012 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -207,6 +207,7 @@ void LevelSet::update_level_set(
     const DCArrayKokkos<double>& GaussPoints_level_set_n0,
     const DCArrayKokkos<double>& GaussPoints_vol,
     const DCArrayKokkos<double>& corner_normal,
+    const DCArrayKokkos<double>& corner_volume,
     const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
     const size_t num_mat_elems,
     const size_t mat_id,
@@ -239,7 +240,12 @@ void LevelSet::update_level_set(
             deltaX = 2.0*cbrt(GaussPoints_vol(gauss_point)); // length scale for smoothing signum function
         }
         else {
-            deltaX = 2.0*sqrt(GaussPoints_vol(gauss_point));
+            // 2D vol = facial area of the quad
+            double elem_area = 0.0;
+            for (size_t corner_lid = 0; corner_lid < mesh.num_nodes_in_elem; corner_lid++) {
+                elem_area += corner_volume(mesh.corners_in_elem(elem_gid, corner_lid));
+            }
+            deltaX = 2.0*sqrt(elem_area);
         }
         const double signum = GaussPoints_level_set(gauss_point)/( sqrt(GaussPoints_level_set(gauss_point)*GaussPoints_level_set(gauss_point) + deltaX*deltaX));
 
-- 
2.43.0


From 2d693e723be98f6f82e379cef74bd64203bf7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 36/87] fix: the stable step of the level set solver was wrong
 for receding fronts

---
 .../src/Solvers/level_set_solver/src/time_integration.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
index a276584..03bc019 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
@@ -171,7 +171,7 @@ void LevelSet::get_timestep(
         const double curvature_velocity = Materials.MaterialFunctions(mat_id).curvature_velocity;
         
         double kappa = 1.0/(3.0*dist_min); // max curvature is around 3 DeltaX, curvature = 1/R
-        double front_velocity = 1.5+normal_velocity + curvature_velocity*kappa;
+        double front_velocity = 1.5 + fabs(normal_velocity) + fabs(curvature_velocity)*kappa;
         // the 1.5 is for redistancing velocity that has a value around 1.0, so using 1.5
 
         // local dt calc based on CFL
@@ -284,7 +284,7 @@ void LevelSet::get_timestep_2D(
         const double curvature_velocity = Materials.MaterialFunctions(mat_id).curvature_velocity;
 
         double kappa = 1.0/(3.0*dist_min); // max curvature is around 3 DeltaX, curvature = 1/R
-        double front_velocity = 1.5+normal_velocity + curvature_velocity*kappa;
+        double front_velocity = 1.5 + fabs(normal_velocity) + fabs(curvature_velocity)*kappa;
         // the 1.5 is for redistancing velocity that has a value around 1.0, so using 1.5
 
         // local dt calc based on CFL
-- 
2.43.0


From 9e41684b5335fe4a5c00dc340f6e6c0c4719f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 37/87] fix: dumps on iterations shifted the graphics times of
 the level set and quasi-static solvers

---
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp          | 5 ++++-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index c0e4eb2..544bcd3 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -207,7 +207,10 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
                                    TLQS3D_State::required_material_pt_state,
                                    this->solver_id);
 
-            graphics_time = time_value + graphics_dt_ival;
+            // dumps on iterations do not shift the times of the next dumps
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index a98c0b2..0ee529c 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -332,7 +332,10 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
                                    LevelSet_State::required_material_pt_state,
                                    this->solver_id);
 
-            graphics_time = time_value + graphics_dt_ival;
+            // dumps on iterations do not shift the times of the next dumps
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
-- 
2.43.0


From 66e7b4db96430974a4e272964bb8e539fae8faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 38/87] fix: the scale factors were not applied to Abaqus
 meshes

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 7818d25..5387bbf 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -368,7 +368,7 @@ public:
             read_ensight_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
         }
         else if(extension == "inp"){ // Abaqus meshfile extension
-            read_Abaqus_mesh(mesh, State, num_dims);
+            read_Abaqus_mesh(mesh, State, mesh_inps, num_dims);
         }
         else if(extension == "vtk"){ // vtk file format
             read_vtk_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
@@ -542,12 +542,13 @@ public:
     ///
     /// \param Simulation mesh
     /// \param Simulation state
-    /// \param Node state struct
+    /// \param Mesh input parameters
     /// \param Number of dimensions
     ///
     /////////////////////////////////////////////////////////////////////////////
     void read_Abaqus_mesh(swage::Mesh& mesh,
                           State_t& State,
+                          const mesh_input_t& mesh_inps,
                           int num_dims)
     {
 
@@ -656,9 +657,9 @@ public:
 
         // Copy nodes to mesh
         for(int node_gid = 0; node_gid < num_nodes; node_gid++){
-            State.node.coords.host(node_gid, 0) = nodes[node_gid].x;
-            State.node.coords.host(node_gid, 1) = nodes[node_gid].y;
-            State.node.coords.host(node_gid, 2) = nodes[node_gid].z;
+            State.node.coords.host(node_gid, 0) = mesh_inps.scale_x*nodes[node_gid].x;
+            State.node.coords.host(node_gid, 1) = mesh_inps.scale_y*nodes[node_gid].y;
+            State.node.coords.host(node_gid, 2) = mesh_inps.scale_z*nodes[node_gid].z;
         }
 
         // Update device nodal positions
-- 
2.43.0


From 5fdf9ec3c211a9e29bb3426b0d0599ab515b58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 39/87] fix: the node ids of Abaqus meshes were ignored

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 5387bbf..0ae7561 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -674,13 +674,20 @@ public:
         mesh.initialize_elems(num_elem, num_dims);
 
 
+        // the ids of the nodes in the file need not be consecutive, nor start at 1
+        std::map<int, size_t> gid_of_node;
+        for (size_t node_gid = 0; node_gid < num_nodes; node_gid++) {
+            gid_of_node[nodes[node_gid].id] = node_gid;
+        }
+
         // for each cell read the list of associated nodes
         for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
             for (int node_lid = 0; node_lid < 8; node_lid++) {
-                mesh.nodes_in_elem.host(elem_gid, node_lid) = elements[elem_gid].connectivity[node_lid];
-
-                // shift to start node index space at 0
-                mesh.nodes_in_elem.host(elem_gid, node_lid) -= 1;
+                auto found = gid_of_node.find(elements[elem_gid].connectivity[node_lid]);
+                if (found == gid_of_node.end()) {
+                    throw std::runtime_error("**** An element of the Abaqus mesh has a node that is not in the file ****");
+                }
+                mesh.nodes_in_elem.host(elem_gid, node_lid) = found->second;
             }
         }
 
-- 
2.43.0


From 88bfdd4135e5e90ef26f5bba91a97eddb74b1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 40/87] fix: mesh builder moves cylinders by their origin once,
 not twice

---
 legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp b/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp
index 5f40ee3..afd7786 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp
+++ b/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp
@@ -211,12 +211,12 @@ Mesh build_rectilinear(const Input_Rectilinear& input) {
  * The coordinates of the points before this function are <r, theta, z>.
  * The coordinates of the points after this function are <x, y, z>.
 */
-void cylinder_transform(Mesh& mesh, const Input_Cylinder& input) {
+void cylinder_transform(Mesh& mesh) {
     for (size_t i = 0; i < mesh.points.dims(0); i++) {
         double r_i = mesh.points(i, 0);
         double theta = mesh.points(i, 1);
-        mesh.points(i, 0) = input.origin[0] + r_i * cos(theta);
-        mesh.points(i, 1) = input.origin[1] + r_i * sin(theta);
+        mesh.points(i, 0) = r_i * cos(theta);
+        mesh.points(i, 1) = r_i * sin(theta);
     }
 }
 
@@ -240,7 +240,7 @@ Mesh MeshBuilder::build_mesh(std::shared_ptr<MeshBuilderInput> input) {
         break;
     case MeshType::Cylinder:
         mesh = build_rectilinear(*std::dynamic_pointer_cast<Input_Rectilinear>(input));
-        cylinder_transform(mesh, *std::dynamic_pointer_cast<Input_Cylinder>(input));
+        cylinder_transform(mesh);
         break;
     default:
         throw std::runtime_error("Unsupported mesh shape.");
-- 
2.43.0


From 63b5a72af48a1f0cdaaf6baddba572d51ff4c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 41/87] fix: mesh builder rejects inconsistent lists, empty
 axes and angles over 360 degrees

---
 .../Mesh-Builder/include/MeshBuilderInput.h   | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
index d907cb6..78530d5 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
@@ -78,7 +78,23 @@ struct Input_Rectilinear
         }
     }
 
+    void check_sizes() const {
+        if (origin.size() != 2 && origin.size() != 3)
+            throw Yaml::ConfigurationException("Detected number of dimensions must be either 2 or 3.");
+
+        if (!all_equal({length.size(), num_elems.size(), origin.size()}))
+            throw Yaml::ConfigurationException(
+                "You must specify the same number of values for `length`, `num_elems` and `origin`."
+            );
+
+        for (auto nm : num_elems)
+            if (nm < 1)
+                throw Yaml::ConfigurationException("The number of elements along each axis must be positive.");
+    }
+
     void derive() {
+        // The derivations below (and in derived classes) rely on consistent sizes.
+        check_sizes();
         num_dims = origin.size();
 
         lower_bound = {0, 0, 0};
@@ -106,13 +122,7 @@ struct Input_Rectilinear
     }
 
     void validate() {
-        if (num_dims != 2 && num_dims != 3) 
-            throw Yaml::ConfigurationException("Detected number of dimensions must be either 2 or 3.");
-            
-        if (!all_equal({length.size(), num_elems.size(), origin.size()}))
-            throw Yaml::ConfigurationException(
-                "You must specify the same number of values for `length`, `num_elems` and `origin`."
-            );
+        check_sizes();
     }
 };
 YAML_ADD_REQUIRED_FIELDS_FOR(Input_Rectilinear, length, num_elems)
@@ -149,7 +159,8 @@ struct Input_Cylinder
     }
 
     void validate() {
-        if (length[1] < 0 || length[1] > 360)
+        // The length has been converted to radians.
+        if (length[1] < 0 || length[1] > 2 * M_PI * (1 + 1e-12))
             throw Yaml::ConfigurationException("The angular lenght of the cylinder must be in [0, 360]");
     }
 };
-- 
2.43.0


From a3bfcdf01d8c0c34703e9cb4f91f9467c8b07d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 42/87] fix: node order of high order hexahedra is the same in
 every call

---
 legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h b/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
index 313aea2..9410215 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
@@ -99,7 +99,7 @@ namespace {
     }
 
     inline std::vector<int> ijk_to_lagrange_hex(const int p_order) {
-        static std::vector<int> map;
+        std::vector<int> map;
 
         int order[3] = {p_order, p_order, p_order};
         for (int k = 0; k <= p_order; k++)
-- 
2.43.0


From fe14fd90d87f762afac7b7359afff29f70743e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 43/87] fix: VTK meshes are read with their order, dimension
 and node numbering

---
 .../Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp b/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
index 4592a03..7dd4ce1 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
+++ b/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
@@ -211,6 +211,19 @@ namespace {
         mesh.element_types = read_1darray<int>(in, num_elems);
         return true;
     }
+
+    bool is_2d_cell(int vtk_cell_type) {
+        return vtk_cell_type == 9 || vtk_cell_type == 70;
+    }
+
+    void drop_third_coordinate(Mesh& mesh) {
+        auto points = mtr::CArray<double>(mesh.points.dims(0), 2);
+        for (size_t i = 0; i < points.dims(0); i++)
+            for (size_t j = 0; j < 2; j++)
+                points(i, j) = mesh.points(i, j);
+        mesh.points = points;
+        mesh.num_dim = 2;
+    }
 }
 
 Mesh MeshIO::read_vtk(std::istream& in, bool verbose) {
@@ -237,8 +250,12 @@ Mesh MeshIO::read_vtk(std::istream& in, bool verbose) {
             found_cell_types = true;
     }
 
+    // Points in the file always have three coordinates, also those of 2D cells.
+    if (found_points && found_cells && found_cell_types && mesh.num_dim == 3 && is_2d_cell(mesh.element_types(0)))
+        drop_third_coordinate(mesh);
+
     if (found_points && found_cells)
-        mesh.p_order = std::pow(mesh.element_point_index.dims(1), 1.0 / mesh.num_dim);
+        mesh.p_order = std::lround(std::pow(mesh.element_point_index.dims(1), 1.0 / mesh.num_dim)) - 1;
 
     if (!mesh.validate()) {
         throw std::runtime_error("Invalid mesh constructed.");
@@ -248,7 +265,7 @@ Mesh MeshIO::read_vtk(std::istream& in, bool verbose) {
         if (VtkIO::is_lagrange_ordered(mesh.element_types(0))) {
             _Impl::reorder_columns(
                 mesh.element_point_index,
-                VtkIO::ijk_to_lagrange(mesh.num_dim, mesh.p_order).data()
+                VtkIO::lagrange_to_ijk(mesh.num_dim, mesh.p_order).data()
             );
         } else {
             _Impl::reorder_columns(
-- 
2.43.0


From c15846983a8c4652b3df767d9440fdb24dc29cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 44/87] fix: mesh builder rejects polynomial order 0

---
 legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
index 78530d5..e1bce8a 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
@@ -90,6 +90,9 @@ struct Input_Rectilinear
         for (auto nm : num_elems)
             if (nm < 1)
                 throw Yaml::ConfigurationException("The number of elements along each axis must be positive.");
+
+        if (p_order < 1)
+            throw Yaml::ConfigurationException("The polynomial order must be at least 1.");
     }
 
     void derive() {
-- 
2.43.0


From 69c13e8e5f5ae5225fabd5f4d0037a9a61b454a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 45/87] fix: text that is no number is rejected where a number
 is read

---
 .../include/yaml-serializable-containers.h             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3df86c5..14e874d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -158,8 +158,14 @@ namespace Yaml {
         template<typename T>
         struct Impl {
             static void deserialize(T& v, Yaml::Node& node, bool raw) {
-                if (!node.IsNone()) 
-                    v = node.As<T>();
+                if (node.IsNone()) return;
+                if constexpr (std::is_arithmetic<T>::value && sizeof(T) > 1) {
+                    std::stringstream ss(node.As<std::string>());
+                    T number;
+                    if (!(ss >> number) || !(ss >> std::ws).eof())
+                        throw Yaml::ConfigurationException("Failed to parse string: `" + node.As<std::string>() + "`. Expected a number.");
+                }
+                v = node.As<T>();
             }
             static void serialize(const T& v, Yaml::Node& node) {
                 std::stringstream ss;
-- 
2.43.0


From fb6f540af1e57362ec02db4f21c54cd804156e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 46/87] fix: volumes with a negative inner radius are rejected

---
 .../src/Parallel-Solvers/Simulation_Parameters/Geometry.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
index aa0e593..9fedfc1 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
@@ -189,7 +189,7 @@ struct Volume : Yaml::ValidatedYaml {
     
     void validate() {
       if (type == VOLUME_TYPE::cylinder || type == VOLUME_TYPE::sphere) {
-        if (radius2 < 0) {
+        if (radius1 < 0) {
           throw Yaml::ConfigurationException(
             "The inner radius cannot be less than 0 for volume type: "
               + to_string(type)
-- 
2.43.0


From 9f58cbb9c8f9380a2f8b6a22ef1aee5ae6f0c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 47/87] fix: relative density bounds above 1 are rejected, as
 the message says

---
 .../Optimization_Bound_Constraint_Region.h                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Bound_Constraint_Region.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Bound_Constraint_Region.h
index 34fe794..4144325 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Bound_Constraint_Region.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Bound_Constraint_Region.h
@@ -16,12 +16,12 @@ struct Optimization_Bound_Constraint_Region : Yaml::DerivedFields, Yaml::Validat
 
     void validate() {
       if (lower_density_bound.has_value()){
-        if(lower_density_bound.value()<0)
+        if(lower_density_bound.value()<0 || lower_density_bound.value()>1)
         throw Yaml::ConfigurationException("Specify values for lower relative density greater than or equal to 0 but less than or equal to 1");
       }
 
       if (upper_density_bound.has_value()){
-        if(upper_density_bound.value()<0)
+        if(upper_density_bound.value()<0 || upper_density_bound.value()>1)
         throw Yaml::ConfigurationException("Specify values for upper relative density greater than 0 but less than or equal to 1");
       }
     }
-- 
2.43.0


From e972d46bb2212376cf14c5beee71070ab0e987e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 48/87] fix: optimization constraints and ROL settings are
 validated when they are read

---
 .../Simulation_Parameters/Optimization_Options.h              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Options.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Options.h
index f59bff1..6a0e404 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Options.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Optimization_Options.h
@@ -69,7 +69,7 @@ inline int component_to_int(CONSTRAINT_COMPONENT c) {
   }
 }
 
-struct Optimization_Constraint {
+struct Optimization_Constraint : Yaml::ValidatedYaml {
   CONSTRAINT_TYPE type = CONSTRAINT_TYPE::mass;
   double value         = 0;
   RELATION relation    = RELATION::equality;
@@ -103,7 +103,7 @@ YAML_ADD_REQUIRED_FIELDS_FOR(MultiObjectiveModule, type, weight_coefficient)
 IMPL_YAML_SERIALIZABLE_FOR(MultiObjectiveModule, type, weight_coefficient)
 
 //ROL options read in struct
-struct ROL_Params: Yaml::DerivedFields {
+struct ROL_Params: Yaml::DerivedFields, Yaml::ValidatedYaml {
   ROL_SUBPROBLEM_ALGORITHM subproblem_algorithm = ROL_SUBPROBLEM_ALGORITHM::trust_region;
   double initial_constraint_penalty = 1e1;
   double step_tolerance = 1e-5;
-- 
2.43.0


From a1397cf84e538683d22b39fe1f12373ff6221a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 49/87] fix: regions without a density or with the energy of an
 unbounded volume are rejected

---
 .../Simulation_Parameters/Geometry.h               |  4 ++++
 .../Simulation_Parameters/Region.h                 | 14 ++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
index 9fedfc1..b76bce4 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
@@ -165,6 +165,10 @@ struct Volume : Yaml::ValidatedYaml {
       }
     }
 
+    bool is_bounded() const {
+      return type == VOLUME_TYPE::box || type == VOLUME_TYPE::cylinder || type == VOLUME_TYPE::sphere;
+    }
+
     KOKKOS_FUNCTION
     double get_volume() {
       switch(type) {
diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Region.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Region.h
index 14bcacc..b8b4c25 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Region.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Region.h
@@ -18,18 +18,18 @@ SERIALIZABLE_ENUM(VELOCITY_TYPE,
 )
 
 struct mat_fill_t {
-    size_t material_id;
+    size_t material_id = 0;
     Volume volume;
     VELOCITY_TYPE velocity = VELOCITY_TYPE::cartesian;
-    double u,v,w;
-    double speed;
-    double sie;
-    double den;
+    double u = 0, v = 0, w = 0;
+    double speed = 0;
+    double sie = 0;
+    double den = 0;
     bool extensive_energy_setting = false;
 };
 
 struct Region : Yaml::DerivedFields, Yaml::ValidatedYaml, mat_fill_t {
-    size_t id;
+    size_t id = 0;
     std::optional<double> sie;
     std::optional<double> ie;
     std::optional<double> u;
@@ -57,6 +57,8 @@ struct Region : Yaml::DerivedFields, Yaml::ValidatedYaml, mat_fill_t {
       mat_fill_t::w = w.value_or(0);
 
       if (ie.has_value()){
+        if (!volume.is_bounded())
+          throw Yaml::ConfigurationException("The energy (ie) of a region needs a box, cylinder or sphere as its volume. Specify the specific energy (sie).");
         mat_fill_t::extensive_energy_setting = true;
         sie = ie.value()  / (den * volume.get_volume());
       }
-- 
2.43.0


From ec828a88d65f2d3ede0bfdec18075cf5cd355c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 50/87] fix: thermo elasticity has its default output fields
 and no undefined shear stress

---
 .../FEA_Module/Thermo_Elasticity_Parameters.h                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/FEA_Module/Thermo_Elasticity_Parameters.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/FEA_Module/Thermo_Elasticity_Parameters.h
index a4859ab..7623243 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/FEA_Module/Thermo_Elasticity_Parameters.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/FEA_Module/Thermo_Elasticity_Parameters.h
@@ -20,18 +20,19 @@ struct Thermo_Elasticity_Parameters
     bool muelu_parameters_xml_file = false;
     std::string xml_parameters_file_name = "elasticity3D.xml";
 
-    std::set<FIELD> default_output_fields {
+    Thermo_Elasticity_Parameters() : FEA_Module_Parameters({
         FIELD::displacement,
         FIELD::displaced_mesh,
         FIELD::strain,
         FIELD::temperature,
         FIELD::heat_flux,
-    };
+    }) { }
 
     void derive() {
         if(constant_pressure){
             constant_stress_flag = true;
             constant_stress[0] = constant_stress[1] = constant_stress[2] = constant_pressure;
+            constant_stress[3] = constant_stress[4] = constant_stress[5] = 0;
         }
     }
 };
-- 
2.43.0


From b620e7669419f21ba5b86eec3ae012113598824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 51/87] fix: options left out of a legacy input are derived
 from their defaults

---
 .../Simulation_Parameters/Simulation_Parameters.h             | 4 ++++
 .../Simulation_Parameters/Simulation_Parameters_Explicit.h    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters.h
index 22af4ea..624e807 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters.h
@@ -292,6 +292,10 @@ struct Simulation_Parameters
     }
     
     void derive() {
+        // Options left out of the input have not been derived yet.
+        optimization_options.derive();
+        optimization_options.rol_params.derive();
+
         ensure_module(std::make_shared<Inertial_Parameters>());
         derive_optimization_process();
         if (topology_optimization_on || shape_optimization_on) {
diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters_Explicit.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters_Explicit.h
index 118d8cf..285f77f 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters_Explicit.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Simulation_Parameters_Explicit.h
@@ -25,6 +25,10 @@ struct Simulation_Parameters_Explicit : Simulation_Parameters {
     }
     
     void derive() {
+        // Options left out of the input have not been derived yet.
+        dynamic_options.derive();
+        output_options.derive();
+
         // Be careful to rederive these 
         // since we are overwriting the "Simulation_Parameters::output_options" with our own.
         if (output_options.include_default_output_fields)
-- 
2.43.0


From ba6feeceab1796e0de2e85ad0e5a8839d458170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 52/87] fix: legacy voxel files were read one cell short and
 sampled half a cell off

---
 .../Simulation_Parameters/Geometry.h           | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
index b76bce4..fdc5609 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
@@ -154,7 +154,7 @@ struct Volume : Yaml::ValidatedYaml {
             } // end if
             
             // check for periodic
-            if (elem_coords[0] > num_voxel_x*voxel_dx+(orig_x-voxel_dx/2) || elem_coords[1] > num_voxel_y*voxel_dy+(orig_y-voxel_dy/2) || elem_coords[2] > num_voxel_z*voxel_dz+(orig_z-voxel_dz/2) || elem_coords[0] < (orig_x-voxel_dx/2) || elem_coords[1] < (orig_y-voxel_dy/2) || elem_coords[2] < (orig_z-voxel_dz/2)) {
+            if (elem_coords[0] > num_voxel_x*voxel_dx+orig_x || elem_coords[1] > num_voxel_y*voxel_dy+orig_y || elem_coords[2] > num_voxel_z*voxel_dz+orig_z || elem_coords[0] < orig_x || elem_coords[1] < orig_y || elem_coords[2] < orig_z) {
                 fill_this = false;
             }
             return fill_this;
@@ -314,7 +314,7 @@ std::tuple<CArray<bool>, double, double, double, double, double, double, size_t,
 
             size_t num_saved =0;
             
-            while (num_saved < num_points_i-1){
+            while (num_saved < num_points_i){
                 // get next line
                 std::getline(in, str0);
                 
@@ -358,7 +358,7 @@ std::tuple<CArray<bool>, double, double, double, double, double, double, size_t,
 
             size_t num_saved =0;
             
-            while (num_saved < num_points_j-1){
+            while (num_saved < num_points_j){
                 // get next line
                 std::getline(in, str0);
                 
@@ -404,7 +404,7 @@ std::tuple<CArray<bool>, double, double, double, double, double, double, size_t,
 
             size_t num_saved =0;
             
-            while (num_saved < num_points_k-1){
+            while (num_saved < num_points_k){
                 // get next line
                 std::getline(in, str0);
                 
@@ -445,7 +445,7 @@ std::tuple<CArray<bool>, double, double, double, double, double, double, size_t,
     size_t num_elems_k = num_points_k - 1;
     
     
-    // center to center distance between first and last elem along each edge
+    // distance between the first and last node along each edge
     double Lx = (pt_coords_x(num_points_i-1) - pt_coords_x(0));
     double Ly = (pt_coords_y(num_points_j-1) - pt_coords_y(0));
     double Lz = (pt_coords_z(num_points_k-1) - pt_coords_z(0));
@@ -456,9 +456,9 @@ std::tuple<CArray<bool>, double, double, double, double, double, double, size_t,
     double dz = Lz/((double) num_elems_k);
     
     // element mesh origin
-    double orig_x = 0.5 * (pt_coords_x(0) + pt_coords_x(1));
-    double orig_y = 0.5 * (pt_coords_y(0) + pt_coords_y(1));
-    double orig_z = 0.5 * (pt_coords_z(0) + pt_coords_z(1));
+    double orig_x = pt_coords_x(0);
+    double orig_y = pt_coords_y(0);
+    double orig_z = pt_coords_z(0);
     
     // look for CELLS
     i = 0;
@@ -506,7 +506,7 @@ std::tuple<CArray<bool>, double, double, double, double, double, double, size_t,
 
             size_t num_saved =0;
             
-            while (num_saved < num_elems-1){
+            while (num_saved < num_elems){
                 // get next line
                 std::getline(in, str0);
                 
-- 
2.43.0


From 9a65937f9a68d23bbd843aa7320a52268f33a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 53/87] fix: extent of an STL surface whose extreme vertices
 tie

---
 .../src/Voxelizer/src/stl-to-voxelvtk.cpp     | 98 +++++++++----------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
index 5236fe6..3ccbe08 100644
--- a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
+++ b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
@@ -401,79 +401,79 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
     
     // Global maximum x-direction
     FOR_REDUCE_MAX(i,0,n_facets,meshXmax, {
-        if (v1X(i) > meshXmax | v2X(i) > meshXmax | v3X(i) > meshXmax) {
-            if (v1X(i) > v2X(i) && v1X(i) > v3X(i)) {
-                meshXmax = v1X(i);
-            } else if (v2X(i) > v1X(i) && v2X(i) > v3X(i)) {
-                meshXmax = v2X(i);
-            } else if (v3X(i) > v1X(i) && v3X(i) > v2X(i)) {
-                meshXmax = v3X(i);
-            }
+        if (v1X(i) > meshXmax) {
+            meshXmax = v1X(i);
+        }
+        if (v2X(i) > meshXmax) {
+            meshXmax = v2X(i);
+        }
+        if (v3X(i) > meshXmax) {
+            meshXmax = v3X(i);
         }
     }, meshXmax);
-    
+
     // Global minimum x-direction
     FOR_REDUCE_MIN(i,0,n_facets,meshXmin, {
-        if (v1X(i) < meshXmin | v2X(i) < meshXmin | v3X(i) < meshXmin) {
-            if (v1X(i) < v2X(i) && v1X(i) < v3X(i)) {
-                meshXmin = v1X(i);
-            } else if (v2X(i) < v1X(i) && v2X(i) < v3X(i)) {
-                meshXmin = v2X(i);
-            } else if (v3X(i) < v1X(i) && v3X(i) < v2X(i)) {
-                meshXmin = v3X(i);
-            }
+        if (v1X(i) < meshXmin) {
+            meshXmin = v1X(i);
+        }
+        if (v2X(i) < meshXmin) {
+            meshXmin = v2X(i);
+        }
+        if (v3X(i) < meshXmin) {
+            meshXmin = v3X(i);
         }
     }, meshXmin);
 
     // Global maximum y-direction
     FOR_REDUCE_MAX(i,0,n_facets,meshYmax, {
-        if (v1Y(i) > meshYmax | v2Y(i) > meshYmax | v3Y(i) > meshYmax) {
-            if (v1Y(i) > v2Y(i) && v1Y(i) > v3Y(i)) {
-                meshYmax = v1Y(i);
-            } else if (v2Y(i) > v1Y(i) && v2Y(i) > v3Y(i)) {
-                meshYmax = v2Y(i);
-            } else if (v3Y(i) > v1Y(i) && v3Y(i) > v2Y(i)) {
-                meshYmax = v3Y(i);
-            }
+        if (v1Y(i) > meshYmax) {
+            meshYmax = v1Y(i);
+        }
+        if (v2Y(i) > meshYmax) {
+            meshYmax = v2Y(i);
+        }
+        if (v3Y(i) > meshYmax) {
+            meshYmax = v3Y(i);
         }
     }, meshYmax);
 
     // Global minimum y-direction
     FOR_REDUCE_MIN(i,0,n_facets,meshYmin, {
-        if (v1Y(i) < meshYmin | v2Y(i) < meshYmin | v3Y(i) < meshYmin) {
-            if (v1Y(i) < v2Y(i) && v1Y(i) < v3Y(i)) {
-                meshYmin = v1Y(i);
-            } else if (v2Y(i) < v1Y(i) && v2Y(i) < v3Y(i)) {
-                meshYmin = v2Y(i);
-            } else if (v3Y(i) < v1Y(i) && v3Y(i) < v2Y(i)) {
-                meshYmin = v3Y(i);
-            }
+        if (v1Y(i) < meshYmin) {
+            meshYmin = v1Y(i);
+        }
+        if (v2Y(i) < meshYmin) {
+            meshYmin = v2Y(i);
+        }
+        if (v3Y(i) < meshYmin) {
+            meshYmin = v3Y(i);
         }
     }, meshYmin);
 
     // Global maximum z-direction
     FOR_REDUCE_MAX(i,0,n_facets,meshZmax, {
-        if (v1Z(i) > meshZmax | v2Z(i) > meshZmax | v3Z(i) > meshZmax) {
-            if (v1Z(i) > v2Z(i) && v1Z(i) > v3Z(i)) {
-                meshZmax = v1Z(i);
-            } else if (v2Z(i) > v1Z(i) && v2Z(i) > v3Z(i)) {
-                meshZmax = v2Z(i);
-            } else if (v3Z(i) > v1Z(i) && v3Z(i) > v2Z(i)) {
-                meshZmax = v3Z(i);
-            }
+        if (v1Z(i) > meshZmax) {
+            meshZmax = v1Z(i);
+        }
+        if (v2Z(i) > meshZmax) {
+            meshZmax = v2Z(i);
+        }
+        if (v3Z(i) > meshZmax) {
+            meshZmax = v3Z(i);
         }
     }, meshZmax);
 
     // Global minimum z-direction
     FOR_REDUCE_MIN(i,0,n_facets,meshZmin, {
-        if (v1Z(i) < meshZmin | v2Z(i) < meshZmin | v3Z(i) < meshZmin) {
-            if (v1Z(i) < v2Z(i) && v1Z(i) < v3Z(i)) {
-                meshZmin = v1Z(i);
-            } else if (v2Z(i) < v1Z(i) && v2Z(i) < v3Z(i)) {
-                meshZmin = v2Z(i);
-            } else if (v3Z(i) < v1Z(i) && v3Z(i) < v2Z(i)) {
-                meshZmin = v3Z(i);
-            }
+        if (v1Z(i) < meshZmin) {
+            meshZmin = v1Z(i);
+        }
+        if (v2Z(i) < meshZmin) {
+            meshZmin = v2Z(i);
+        }
+        if (v3Z(i) < meshZmin) {
+            meshZmin = v3Z(i);
         }
     }, meshZmin);
 //    Kokkos::fence();
-- 
2.43.0


From 76aed13ae2930b329eb3901a1b297bf6ef4dbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 54/87] fix: rays through the edges and vertices of an STL
 surface were lost

---
 .../src/Voxelizer/src/stl-to-voxelvtk.cpp     | 166 +++++++-----------
 1 file changed, 66 insertions(+), 100 deletions(-)

diff --git a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
index 3ccbe08..2823370 100644
--- a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
+++ b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
@@ -389,6 +389,28 @@ std::tuple<CArray<float>, CArray<float>, CArray<float>, CArray<float>, CArray<fl
     return {normal, v1X, v1Y, v1Z, v2X, v2Y, v2Z, v3X, v3Y, v3Z, n_facets};
 }
 
+// Which side of the edge from a to b the ray at x,y is on (1 or -1, 0 if the edge has no length).
+// A ray that hits the edge counts as shifted by a tiny amount in x, and an even smaller one in y, so that
+// it crosses exactly one of the facets that share the edge. Both of them see the same side.
+KOKKOS_INLINE_FUNCTION
+int ray_side(double ax, double ay, double bx, double by, double x, double y) {
+    int sign = 1;
+    if (ax > bx || (ax == bx && ay > by)) {
+        double tx = ax, ty = ay;
+        ax = bx; ay = by;
+        bx = tx; by = ty;
+        sign = -1;
+    }
+    double cross = (bx-ax)*(y-ay) - (by-ay)*(x-ax);
+    if (cross == 0) {
+        cross = ay-by;
+    }
+    if (cross == 0) {
+        cross = bx-ax;
+    }
+    return cross > 0 ? sign : cross < 0 ? -sign : 0;
+}
+
 // VOXELIZATION FUNCTION
 void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ, CArray<float> &normal, CArray<float> &v1X, CArray<float> &v1Y, CArray<float> &v1Z, CArray<float> &v2X, CArray<float> &v2Y, CArray<float> &v2Z, CArray<float> &v3X, CArray<float> &v3Y, CArray<float> &v3Z, unsigned int &n_facets, double &voxel_dx, double &voxel_dy, double &voxel_dz){
     // Find the global maximum and minimum values of the mesh
@@ -484,7 +506,7 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
     // Voxel grid x-direction
     voxel_dx = (meshXmax-meshXmin)/(gridX);
     int elx = gridX+2;
-    CArray<float> gridCOx(elx+1);
+    CArray<double> gridCOx(elx+1);
     gridCOx(0) = meshXmin;
     gridCOx(elx) = meshXmax;
     FOR_LOOP (i, 0, elx-1, {
@@ -495,7 +517,7 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
     // Voxel grid y-direction
     voxel_dy = (meshYmax-meshYmin)/(gridY);
     int ely = gridY+2;
-    CArray<float> gridCOy(ely+1);
+    CArray<double> gridCOy(ely+1);
     gridCOy(0) = meshYmin;
     gridCOy(ely) = meshYmax;
     FOR_LOOP(i, 0, ely-1, {
@@ -506,7 +528,7 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
     // Voxel grid z-direction
     voxel_dz = (meshZmax-meshZmin)/(gridZ);
     int elz = gridZ+2;
-    CArray<float> gridCOz(elz+1);
+    CArray<double> gridCOz(elz+1);
     gridCOz(0) = meshZmin;
     gridCOz(elz) = meshZmax;
     FOR_LOOP(i, 0, elz-1, {
@@ -607,10 +629,7 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
     // Initialize variables
     CArray<int> possibleCROSSLIST(n_facets);
     CArray<int> facetCROSSLIST(n_facets);
-    CArray<int> vertexCROSSLIST(n_facets);
-    CArray<float> coN(n_facets);
-    CArray<float> gridCOzCROSS(n_facets);
-    CArray<float> gridCOzCROSSunique(n_facets);
+    CArray<double> gridCOzCROSS(n_facets);
     CArray<bool> voxelsINSIDE(elz);
     
     // Loop through each pixel in the x-y plane by passing rays in the z-direction and finding where they cross the voxelized mesh
@@ -631,137 +650,84 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
         // Check if the ray actually passed through the facet
         if (count2 > 0) {
             
-            // For each facet, check if the ray actually crossed it and didn't just go close by
-            // Check if the ray crossed vertices
-            int count3 = 0;
-            for (int i=0; i<count2; i++) {
-                if (v1X(possibleCROSSLIST(i))==gridCOx(loopX) && v1Y(possibleCROSSLIST(i))==gridCOy(loopY) || v2X(possibleCROSSLIST(i))==gridCOx(loopX) && v2Y(possibleCROSSLIST(i))==gridCOy(loopY) || v3X(possibleCROSSLIST(i))==gridCOx(loopX) && v3Y(possibleCROSSLIST(i))==gridCOy(loopY)) {
-                    vertexCROSSLIST(count3) = possibleCROSSLIST(i);
-                    count3++;
-                }
-            }
-            
-            // If the ray crossed a vertice determine if it needs correction
-            if (count3 > 0) {
-                float coN_max;
-                float coN_min;
-                for (int i=0; i<count3; i++) {
-                    coN(i) = normal(vertexCROSSLIST(i),2);
-                    if (coN(i)>coN_max) {
-                        coN_max = coN(i);
-                    }
-                    if (coN(i)<coN_min) {
-                        coN_min = coN(i);
-                    }
-                }
-                if (coN_max<0 || coN_min>0) {
-                    for (int i=0; i<count3; i++) {
-                        facetCROSSLIST(facetCROSSLISTcounter(0)) = vertexCROSSLIST(i);
-                        facetCROSSLISTcounter(0)++;
-//                        Kokkos::atomic_add(&facetCROSSLISTcounter(0),1);
-                    }
-                } else {
-                    correctionLIST(correctionLISTcounter(0),0) = loopX;
-                    correctionLIST(correctionLISTcounter(0),1) = loopY;
-                    correctionLISTcounter(0)++;
-//                    Kokkos::atomic_add(&correctionLISTcounter(0),1);;
-                }
-            }
-            
             // Check if the ray crossed facets
             int loopCHECKFACET;
             if (count2 > 0) {
                 for (int i=0; i<count2; i++) {
                     loopCHECKFACET = possibleCROSSLIST(i);
                     
-                    // Check if the ray crossed a facet
-                    float Y1predicted = v2Y(loopCHECKFACET) - ((v2Y(loopCHECKFACET)-v3Y(loopCHECKFACET))*(v2X(loopCHECKFACET)-v1X(loopCHECKFACET))/(v2X(loopCHECKFACET)-v3X(loopCHECKFACET)));
-                    float YRpredicted = v2Y(loopCHECKFACET) - ((v2Y(loopCHECKFACET)-v3Y(loopCHECKFACET))*(v2X(loopCHECKFACET)-gridCOx(loopX))/(v2X(loopCHECKFACET)-v3X(loopCHECKFACET)));
-                    // Check if the ray is on the same side of the 2-3 edge as the 1st vertex
-                    if (Y1predicted > v1Y(loopCHECKFACET) && YRpredicted > gridCOy(loopY) || Y1predicted < v1Y(loopCHECKFACET) && YRpredicted < gridCOy(loopY)) {
-                        float Y2predicted = v3Y(loopCHECKFACET) - ((v3Y(loopCHECKFACET)-v1Y(loopCHECKFACET))*(v3X(loopCHECKFACET)-v2X(loopCHECKFACET))/(v3X(loopCHECKFACET)-v1X(loopCHECKFACET)));
-                        YRpredicted = v3Y(loopCHECKFACET) - ((v3Y(loopCHECKFACET)-v1Y(loopCHECKFACET))*(v3X(loopCHECKFACET)-gridCOx(loopX))/(v3X(loopCHECKFACET)-v1X(loopCHECKFACET)));
-                        // Check if the ray is on the same side of the 3-1 edge as the 2nd vertex
-                        if (Y2predicted > v2Y(loopCHECKFACET) && YRpredicted > gridCOy(loopY) || Y2predicted < v2Y(loopCHECKFACET) && YRpredicted < gridCOy(loopY)) {
-                            float Y3predicted = v1Y(loopCHECKFACET) - ((v1Y(loopCHECKFACET)-v2Y(loopCHECKFACET))*(v1X(loopCHECKFACET)-v3X(loopCHECKFACET))/(v1X(loopCHECKFACET)-v2X(loopCHECKFACET)));
-                            YRpredicted = v1Y(loopCHECKFACET) - ((v1Y(loopCHECKFACET)-v2Y(loopCHECKFACET))*(v1X(loopCHECKFACET)-gridCOx(loopX))/(v1X(loopCHECKFACET)-v2X(loopCHECKFACET)));
-                            // Check if the ray is on the same side of the 1-2 edge as the 3rd vertex
-                            if (Y3predicted > v3Y(loopCHECKFACET) && YRpredicted > gridCOy(loopY) || Y3predicted < v3Y(loopCHECKFACET) && YRpredicted < gridCOy(loopY)) {
-                                facetCROSSLIST(facetCROSSLISTcounter(0)) = loopCHECKFACET;
-                                facetCROSSLISTcounter(0)++;
-//                                Kokkos::atomic_add(&facetCROSSLISTcounter(0),1);
-                            }
-                        }
+                    // Check if the ray crossed a facet, it is on the same side of all of its edges
+                    int side1 = ray_side(v1X(loopCHECKFACET),v1Y(loopCHECKFACET),v2X(loopCHECKFACET),v2Y(loopCHECKFACET),gridCOx(loopX),gridCOy(loopY));
+                    int side2 = ray_side(v2X(loopCHECKFACET),v2Y(loopCHECKFACET),v3X(loopCHECKFACET),v3Y(loopCHECKFACET),gridCOx(loopX),gridCOy(loopY));
+                    int side3 = ray_side(v3X(loopCHECKFACET),v3Y(loopCHECKFACET),v1X(loopCHECKFACET),v1Y(loopCHECKFACET),gridCOx(loopX),gridCOy(loopY));
+                    if (side1 != 0 && side1 == side2 && side2 == side3) {
+                        facetCROSSLIST(facetCROSSLISTcounter(0)) = loopCHECKFACET;
+                        facetCROSSLISTcounter(0)++;
+//                        Kokkos::atomic_add(&facetCROSSLISTcounter(0),1);
                     }
                 }
                 
-                // Find the z-coordinate of the locations where the ray crosses each facet or vertex
+                // Find the z-coordinate of the locations where the ray crosses each facet
                 if (facetCROSSLISTcounter(0) > 0) {
                     int i = 0;
                     int loopFINDZ;
                     for (int j=0; j<facetCROSSLISTcounter(0) ; j++) {
                         loopFINDZ = facetCROSSLIST(j);
-                        float planecoA = v1Y(loopFINDZ)*(v2Z(loopFINDZ)-v3Z(loopFINDZ))+v2Y(loopFINDZ)*(v3Z(loopFINDZ)-v1Z(loopFINDZ))+v3Y(loopFINDZ)*(v1Z(loopFINDZ)-v2Z(loopFINDZ));
-                        float planecoB = v1Z(loopFINDZ)*(v2X(loopFINDZ)-v3X(loopFINDZ))+v2Z(loopFINDZ)*(v3X(loopFINDZ)-v1X(loopFINDZ))+v3Z(loopFINDZ)*(v1X(loopFINDZ)-v2X(loopFINDZ));
-                        float planecoC = v1X(loopFINDZ)*(v2Y(loopFINDZ)-v3Y(loopFINDZ))+v2X(loopFINDZ)*(v3Y(loopFINDZ)-v1Y(loopFINDZ))+v3X(loopFINDZ)*(v1Y(loopFINDZ)-v2Y(loopFINDZ));
-                        float planecoD = -v1X(loopFINDZ)*(v2Y(loopFINDZ)*v3Z(loopFINDZ)-v3Y(loopFINDZ)*v2Z(loopFINDZ))-v2X(loopFINDZ)*(v3Y(loopFINDZ)*v1Z(loopFINDZ)-v1Y(loopFINDZ)*v3Z(loopFINDZ))-v3X(loopFINDZ)*(v1Y(loopFINDZ)*v2Z(loopFINDZ)-v2Y(loopFINDZ)*v1Z(loopFINDZ));
-                        if (sqrt(pow(planecoC,2)) < 1E-14) {
-                            planecoC = 0;
+                        // the plane of the facet, relative to its first vertex
+                        double x2 = double(v2X(loopFINDZ))-v1X(loopFINDZ);
+                        double y2 = double(v2Y(loopFINDZ))-v1Y(loopFINDZ);
+                        double z2 = double(v2Z(loopFINDZ))-v1Z(loopFINDZ);
+                        double x3 = double(v3X(loopFINDZ))-v1X(loopFINDZ);
+                        double y3 = double(v3Y(loopFINDZ))-v1Y(loopFINDZ);
+                        double z3 = double(v3Z(loopFINDZ))-v1Z(loopFINDZ);
+                        double planecoA = y2*z3-y3*z2;
+                        double planecoB = z2*x3-z3*x2;
+                        double planecoC = x2*y3-x3*y2;
+                        double z = v1Z(loopFINDZ) - (planecoA*(gridCOx(loopX)-v1X(loopFINDZ))+planecoB*(gridCOy(loopY)-v1Y(loopFINDZ)))/planecoC;
+                        // facets (almost) along the ray
+                        if (!(z >= facetZmin(loopFINDZ))) {
+                            z = facetZmin(loopFINDZ);
                         }
-                        gridCOzCROSS(i) = (-planecoD-planecoA*gridCOx(loopX)-planecoB*gridCOy(loopY))/planecoC;
+                        if (z > facetZmax(loopFINDZ)) {
+                            z = facetZmax(loopFINDZ);
+                        }
+                        gridCOzCROSS(i) = z;
                         i++;
                     }
 
-                    // Keep only the unique values
-                    int flagup;
-                    int ucnt = 0;
-                    for (int i=0; i<facetCROSSLISTcounter(0); i++) {
-                        for (int j=0; j<facetCROSSLISTcounter(0); j++) {
-                            if (gridCOzCROSS(i) == gridCOzCROSS(j) && i != j) {
-                                flagup = 1;
-                            }
-                        }
-                        if (flagup == 1) {
-                            flagup = 0;
-                        } else {
-                            gridCOzCROSSunique(ucnt) = gridCOzCROSS(i);
-                            ucnt++;
-                        }
-                    }
+                    int ucnt = facetCROSSLISTcounter(0);
                     
                     // Label all the voxels that the ray passes through
                     if (ucnt%2 == 0) {
                         for (int loopASSIGN=0; loopASSIGN<ucnt/2; loopASSIGN++) {
-                            float temp;
+                            double temp;
                             for (int j=0; j<ucnt; j++) {
                                 for (int i=0; i<ucnt-1; i++) {
-                                    if (gridCOzCROSSunique(i)>gridCOzCROSSunique(i+1)) {
-                                        temp = gridCOzCROSSunique(i);
-                                        gridCOzCROSSunique(i) = gridCOzCROSSunique(i+1);
-                                        gridCOzCROSSunique(i+1) = temp;
+                                    if (gridCOzCROSS(i)>gridCOzCROSS(i+1)) {
+                                        temp = gridCOzCROSS(i);
+                                        gridCOzCROSS(i) = gridCOzCROSS(i+1);
+                                        gridCOzCROSS(i+1) = temp;
                                     }
                                 }
                             }
                             for (int i=0; i<elz; i++) {
-                                voxelsINSIDE(i) = (gridCOz(i)>gridCOzCROSSunique(2*loopASSIGN) && gridCOz(i)<gridCOzCROSSunique(2*loopASSIGN+1));
+                                voxelsINSIDE(i) = (gridCOz(i)>gridCOzCROSS(2*loopASSIGN) && gridCOz(i)<gridCOzCROSS(2*loopASSIGN+1));
 
                                 // NOTE: IF THERE ARE EVER ANY ERRORS WITH THE CODE THIS IS LIKELY WHERE THEY ARE OCCURING (ROUNDING ERROR)
-                                if (sqrt(pow(gridCOz(i)-gridCOzCROSSunique(2*loopASSIGN),2))/sqrt(pow(gridCOz(i),2)) < 1E-4) {
+                                if (sqrt(pow(gridCOz(i)-gridCOzCROSS(2*loopASSIGN),2))/sqrt(pow(gridCOz(i),2)) < 1E-4) {
                                     voxelsINSIDE(i) = 1;
                                 }
-                                if (sqrt(pow(gridCOz(i)-gridCOzCROSSunique(2*loopASSIGN+1),2))/sqrt(pow(gridCOz(i),2)) < 1E-4) {
+                                if (sqrt(pow(gridCOz(i)-gridCOzCROSS(2*loopASSIGN+1),2))/sqrt(pow(gridCOz(i),2)) < 1E-4) {
                                     voxelsINSIDE(i) = 1;
                                 }
                                 gridOUTPUT(loopX,loopY,i) += voxelsINSIDE(i);
                             }
                          }
                     } else if (ucnt != 0) {
-                        if (count3 == 0) {
-                            correctionLIST(correctionLISTcounter(0),0) = loopX;
-                            correctionLIST(correctionLISTcounter(0),1) = loopY;
-                            correctionLISTcounter(0)++;
-//                            Kokkos::atomic_add(&correctionLISTcounter(0),1);
-                        }
+                        correctionLIST(correctionLISTcounter(0),0) = loopX;
+                        correctionLIST(correctionLISTcounter(0),1) = loopY;
+                        correctionLISTcounter(0)++;
+//                        Kokkos::atomic_add(&correctionLISTcounter(0),1);
                     }
                 }
             }
-- 
2.43.0


From 688c9ac671da79b04feb23945e6dc9af59394c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 55/87] fix: rounding of the voxelizer is relative to the
 cells, not to the position

---
 legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
index 2823370..09e2ee7 100644
--- a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
+++ b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
@@ -714,10 +714,10 @@ void main_function(CArray<bool> &gridOUTPUT, int &gridX, int &gridY, int &gridZ,
                                 voxelsINSIDE(i) = (gridCOz(i)>gridCOzCROSS(2*loopASSIGN) && gridCOz(i)<gridCOzCROSS(2*loopASSIGN+1));
 
                                 // NOTE: IF THERE ARE EVER ANY ERRORS WITH THE CODE THIS IS LIKELY WHERE THEY ARE OCCURING (ROUNDING ERROR)
-                                if (sqrt(pow(gridCOz(i)-gridCOzCROSS(2*loopASSIGN),2))/sqrt(pow(gridCOz(i),2)) < 1E-4) {
+                                if (sqrt(pow(gridCOz(i)-gridCOzCROSS(2*loopASSIGN),2))/voxel_dz < 1E-4) {
                                     voxelsINSIDE(i) = 1;
                                 }
-                                if (sqrt(pow(gridCOz(i)-gridCOzCROSS(2*loopASSIGN+1),2))/sqrt(pow(gridCOz(i),2)) < 1E-4) {
+                                if (sqrt(pow(gridCOz(i)-gridCOzCROSS(2*loopASSIGN+1),2))/voxel_dz < 1E-4) {
                                     voxelsINSIDE(i) = 1;
                                 }
                                 gridOUTPUT(loopX,loopY,i) += voxelsINSIDE(i);
-- 
2.43.0


From 4b423284cd3ab8596f7064f865b0a52d37e64a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 56/87] fix: coordinates of small voxel grids were written as
 zero

---
 .../Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
index 09e2ee7..8f9f831 100644
--- a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
+++ b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
@@ -123,15 +123,15 @@ std::tuple<CArray<bool>, double, double, double> Voxelizer::create_voxel_vtk(std
         
         fprintf(out,"X_COORDINATES %d float\n", gridX+1); // nodal x coordinates
         for (i=0; i<(gridX+1); i++) {
-            fprintf(out,"%lf ",double(i)*double(voxel_dx));
+            fprintf(out,"%.9g ",double(i)*double(voxel_dx));
         }
         fprintf(out,"\nY_COORDINATES %d float\n", gridY+1); // nodal y coordinates
         for (i=0; i<(gridY+1); i++) {
-            fprintf(out,"%lf ",double(i)*double(voxel_dy));
+            fprintf(out,"%.9g ",double(i)*double(voxel_dy));
         }
         fprintf(out,"\nZ_COORDINATES %d float\n", gridZ+1); // nodal z coordinates
         for (i=0; i<(gridZ+1); i++) {
-            fprintf(out,"%lf ",double(i)*double(voxel_dz));
+            fprintf(out,"%.9g ",double(i)*double(voxel_dz));
         }
         
         fprintf(out,"\n\nCELL_DATA %d\n",gridX*gridY*gridZ); // material (1) or void (0) region definition
@@ -259,15 +259,15 @@ std::tuple<double, double, double> Voxelizer::create_voxel_vtk_GUI(std::string s
         
         fprintf(out,"X_COORDINATES %d float\n", gridX+1); // nodal x coordinates
         for (i=0; i<(gridX+1); i++) {
-            fprintf(out,"%lf ",double(i)*double(voxel_dx)+origin_x);
+            fprintf(out,"%.9g ",double(i)*double(voxel_dx)+origin_x);
         }
         fprintf(out,"\nY_COORDINATES %d float\n", gridY+1); // nodal y coordinates
         for (i=0; i<(gridY+1); i++) {
-            fprintf(out,"%lf ",double(i)*double(voxel_dy)+origin_y);
+            fprintf(out,"%.9g ",double(i)*double(voxel_dy)+origin_y);
         }
         fprintf(out,"\nZ_COORDINATES %d float\n", gridZ+1); // nodal z coordinates
         for (i=0; i<(gridZ+1); i++) {
-            fprintf(out,"%lf ",double(i)*double(voxel_dz)+origin_z);
+            fprintf(out,"%.9g ",double(i)*double(voxel_dz)+origin_z);
         }
         
         fprintf(out,"\n\nCELL_DATA %d\n",gridX*gridY*gridZ); // material (1) or void (0) region definition
-- 
2.43.0


From cfc86eca12bb08abc87a16ecc171b3e209d2bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 57/87] fix: missing and incomplete STL files are refused

---
 .../src/Voxelizer/src/stl-to-voxelvtk.cpp          | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
index 8f9f831..cc39158 100644
--- a/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
+++ b/legacy/Fierro_V0/src/Voxelizer/src/stl-to-voxelvtk.cpp
@@ -317,12 +317,13 @@ std::tuple<CArray<float>, CArray<float>, CArray<float>, CArray<float>, CArray<fl
         std::cout << "Opening .stl file... \n";
     }
     else {
-        std::cout << "WARNING: .stl file is not open \n";
+        std::cerr << "ERROR: cannot open the .stl file " << filename << "\n";
+        std::exit(EXIT_FAILURE);
     }
     
     // Initialize variables
     char heading[81];
-    unsigned int n_facets;
+    unsigned int n_facets = 0;
     
     // Read the file's heading
     char* ptr1 = heading;
@@ -333,6 +334,15 @@ std::tuple<CArray<float>, CArray<float>, CArray<float>, CArray<float>, CArray<fl
     // Read the number of facets in the file
     unsigned int* ptr2 = &n_facets;
     input.read(reinterpret_cast<char*>(ptr2), sizeof(unsigned int));
+
+    // A binary .stl file has 50 bytes per facet after the heading and the number of facets
+    auto facets_start = input.tellg();
+    input.seekg(0,input.end);
+    if (!input || n_facets == 0 || std::streamoff(input.tellg()) - 84 < std::streamoff(n_facets) * 50) {
+        std::cerr << "ERROR: " << filename << " is not a complete binary .stl file\n";
+        std::exit(EXIT_FAILURE);
+    }
+    input.seekg(facets_start);
     std::cout << "Voxelizing " << n_facets << " facets..." << "\n";
     
     // Initialize storage variables
-- 
2.43.0


From 393781b1c350e12a88e1680e91f5c6b16b56a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 58/87] fix: origin and lengths given to the voxelizer lost
 their fractions

---
 legacy/Fierro_V0/src/Voxelizer/src/main.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legacy/Fierro_V0/src/Voxelizer/src/main.cpp b/legacy/Fierro_V0/src/Voxelizer/src/main.cpp
index 9bee3d5..17ed291 100644
--- a/legacy/Fierro_V0/src/Voxelizer/src/main.cpp
+++ b/legacy/Fierro_V0/src/Voxelizer/src/main.cpp
@@ -11,12 +11,12 @@ int main(int argc, char *argv[]) {
     int gridX = std::stoi(argv[3]); // voxel resolution x-direction
     int gridY = std::stoi(argv[4]); // voxel resolution y-direction
     int gridZ = std::stoi(argv[5]); // voxel resolution z-direction
-    double origin_x = std::stoi(argv[6]); // size of voxels x-direction
-    double origin_y = std::stoi(argv[7]); // size of voxels y-direction
-    double origin_z = std::stoi(argv[8]); // size of voxels z-direction
-    double length_x = std::stoi(argv[9]); // size of voxels x-direction
-    double length_y = std::stoi(argv[10]); // size of voxels y-direction
-    double length_z = std::stoi(argv[11]); // size of voxels z-direction
+    double origin_x = std::stod(argv[6]); // size of voxels x-direction
+    double origin_y = std::stod(argv[7]); // size of voxels y-direction
+    double origin_z = std::stod(argv[8]); // size of voxels z-direction
+    double length_x = std::stod(argv[9]); // size of voxels x-direction
+    double length_y = std::stod(argv[10]); // size of voxels y-direction
+    double length_z = std::stod(argv[11]); // size of voxels z-direction
     /*
     bool use_index_space = (argc < 7) || std::stoi(argv[6]); // whether to output global or local coordinates
     
-- 
2.43.0


From b2c6330e818c46c4fac844f2713e7b4fa1125245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 59/87] fix: cells of STL volumes are read past the array's
 index check

---
 .../src/Parallel-Solvers/Simulation_Parameters/Geometry.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
index fdc5609..cbc7882 100644
--- a/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
+++ b/legacy/Fierro_V0/src/Parallel-Solvers/Simulation_Parameters/Geometry.h
@@ -112,7 +112,7 @@ struct Volume : Yaml::ValidatedYaml {
             if (elem_id0 < num_voxel_x*num_voxel_y*num_voxel_z && elem_id0>=0){
                 
                 // voxel mesh elem values = 0 or 1
-                if (voxel_elem_values(elem_id0) == true) {
+                if (voxel_elem_values.pointer()[elem_id0] == true) {
                     fill_this = true;
                 } else {
                     fill_this = false;
-- 
2.43.0


From 4844f83d601f6f0320cc6a190a58a8bdb5a724c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 60/87] fix: whole numbers may be followed by text, as the
 reader always allowed

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 14e874d..6f8d080 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -162,7 +162,8 @@ namespace Yaml {
                 if constexpr (std::is_arithmetic<T>::value && sizeof(T) > 1) {
                     std::stringstream ss(node.As<std::string>());
                     T number;
-                    if (!(ss >> number) || !(ss >> std::ws).eof())
+                    // whole numbers may be followed by more text, as in 1e4
+                    if (!(ss >> number) || (std::is_floating_point<T>::value && !(ss >> std::ws).eof()))
                         throw Yaml::ConfigurationException("Failed to parse string: `" + node.As<std::string>() + "`. Expected a number.");
                 }
                 v = node.As<T>();
-- 
2.43.0


From fb6687912416ee20f9bc52799944e29b7ca61992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 61/87] fix: cell sizes were lost on grids of one voxel and
 differed between ranks

---
 apps/micromechanics/EVPFFT/src/step.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/step.cpp b/apps/micromechanics/EVPFFT/src/step.cpp
index 4557f29..c8ce68d 100644
--- a/apps/micromechanics/EVPFFT/src/step.cpp
+++ b/apps/micromechanics/EVPFFT/src/step.cpp
@@ -150,19 +150,14 @@ void EVPFFT::step_texture_rve_update()
 {
   Profiler profiler(__FUNCTION__);
 
-  //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
-
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  delt(1) += dsim(1,1)*delt(1)*tdot;
+  delt(2) += dsim(2,2)*delt(2)*tdot;
+  if (npts3_g > 1) {
+     delt(3) += dsim(3,3)*delt(3)*tdot;
   }
 
 }
-- 
2.43.0


From 41b8a08fa5943c1b6b15adda8361a48c75052c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 62/87] fix: inverse pole figure colors are those of the sample
 axis in the crystal, from angles in radians

---
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp      | 5 ++++-
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp   | 8 ++++++--
 apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp | 8 ++++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 7936527..6820128 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -235,10 +235,13 @@ void calc_IPF_colors(
 
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          aa(ii,jj) = ag(ii,jj,i,j,k);
+          aa(ii,jj) = ag(jj,ii,i,j,k); // from sample to crystal
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) = eulers(ii)*pi/180.0; // euler returns degrees
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index 05c6fd6..952b969 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -254,13 +254,17 @@ void calc_IPF_colors(
 
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          aa(ii,jj) = 0.0;
+          // from sample to crystal: the transpose of R*ag
+          aa(jj,ii) = 0.0;
           for (int kk = 1; kk <= 3; kk++) {
-            aa(ii,jj) =+ ag(ii,kk,i,j,k) * R(kk,jj);
+            aa(jj,ii) += R(ii,kk) * ag(kk,jj,i,j,k);
           }
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) = eulers(ii)*pi/180.0; // euler returns degrees
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
index 4f2ebb2..8e10c66 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
@@ -268,13 +268,17 @@ void calc_IPF_colors(
 
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          aa(ii,jj) = 0.0;
+          // from sample to crystal: the transpose of R*ag
+          aa(jj,ii) = 0.0;
           for (int kk = 1; kk <= 3; kk++) {
-            aa(ii,jj) =+ ag(ii,kk,i,j,k) * R(kk,jj);
+            aa(jj,ii) += R(ii,kk) * ag(kk,jj,i,j,k);
           }
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) = eulers(ii)*pi/180.0; // euler returns degrees
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
-- 
2.43.0


From 6d93899e9531cd198e70c9e4d65d860330caf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 63/87] fix: points of the micro state were scaled by the wrong
 voxel sizes

---
 apps/micromechanics/EVPFFT/src/allocate_memory.cpp      | 1 +
 apps/micromechanics/EVPFFT/src/evpfft.h                 | 1 +
 apps/micromechanics/EVPFFT/src/vpsc_input.cpp           | 1 +
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp    | 6 +++---
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp | 5 +----
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/allocate_memory.cpp b/apps/micromechanics/EVPFFT/src/allocate_memory.cpp
index 558c8e5..4ee18d6 100644
--- a/apps/micromechanics/EVPFFT/src/allocate_memory.cpp
+++ b/apps/micromechanics/EVPFFT/src/allocate_memory.cpp
@@ -35,6 +35,7 @@ void EVPFFT::allocate_memory()
   sdeviat = MatrixTypeRealHost (3,3);
   tomtot = MatrixTypeRealDual (3,3);
   delt = MatrixTypeRealHost (3);
+  delt0 = MatrixTypeRealHost (3);
 
   disgradmacro = MatrixTypeRealDual (3,3);
   ddisgradmacro = MatrixTypeRealDual (3,3);
diff --git a/apps/micromechanics/EVPFFT/src/evpfft.h b/apps/micromechanics/EVPFFT/src/evpfft.h
index feaad5b..046ab03 100644
--- a/apps/micromechanics/EVPFFT/src/evpfft.h
+++ b/apps/micromechanics/EVPFFT/src/evpfft.h
@@ -101,6 +101,7 @@ public:
   //MatrixTypeRealHost dbar5;
   //MatrixTypeRealHost dbar6;
   MatrixTypeRealHost delt;
+  MatrixTypeRealHost delt0; // voxel sizes at the start
   real_t deltvol3;
   real_t tdot;
 
diff --git a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
index 9328efd..11b26cb 100644
--- a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
@@ -64,6 +64,7 @@ void EVPFFT::vpsc_input()
 
   // RVE DIMENSIONS
   ur0 >> delt(1) >> delt(2) >> delt(3); CLEAR_LINE(ur0);
+  for (int i = 1; i <= 3; i++) delt0(i) = delt(i);
   deltvol3 = pow(delt(1) * delt(2) * delt(3), 1.0/3.0);
 
   ur0 >> prosa; CLEAR_LINE(ur0);
diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 6820128..60560ee 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -492,7 +492,7 @@ void EVPFFT::write_micro_state_pvtu()
       }
       if (ii==jj) {defgradavg.host(ii,jj) += 1.0;}
     }
-    delt_dual.host(ii) = delt(ii);
+    delt_dual.host(ii) = delt0(ii);
   }
   defgradavg.update_device();
   delt_dual.update_device();
@@ -510,9 +510,9 @@ void EVPFFT::write_micro_state_pvtu()
         for (int ii = 1; ii <= 3; ii++) {
           real_t dum = 0.0;
           for (int jj = 1; jj <= 3; jj++) {
-            dum += defgradavg(ii,jj)*xtmp[jj-1];
+            dum += defgradavg(ii,jj)*xtmp[jj-1]*delt_dual(jj);
           }
-          xintp(ii,kx,ky,kz) = dum*delt_dual(ii);
+          xintp(ii,kx,ky,kz) = dum;
         }
   }); // end FOR_ALL_CLASS
   Kokkos::fence();
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index 952b969..bee307e 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -504,7 +504,6 @@ void EVPFFT::write_micro_state_pvtu()
 
   // Calculate point positions
   MatrixTypeRealDual defgradavg_dual(3,3);
-  MatrixTypeRealDual delt_dual(3);
   MatrixTypeRealDual uf(3,npts1_g,npts2_g,npts3_g);
   MatrixTypeRealDual ufintp(3,npts1+1,npts2+1,npts3+1);
   MatrixTypeRealDual xintp(3,npts1+1,npts2+1,npts3+1);
@@ -514,10 +513,8 @@ void EVPFFT::write_micro_state_pvtu()
     for (int jj = 1; jj <= 3; jj++) {
       defgradavg_dual.host(ii,jj) = defgradavg(ii,jj);
     }
-    delt_dual.host(ii) = delt(3);
   }
   defgradavg_dual.update_device();
-  delt_dual.update_device();
   
   FOR_ALL_CLASS(
           kz, 1, npts3+1,
@@ -607,7 +604,7 @@ void EVPFFT::write_micro_state_pvtu()
           for (int jj = 1; jj <= 3; jj++) {
             dum += defgradavg_dual(ii,jj)*xtmp[jj-1];
           }
-          xintp(ii,kx,ky,kz) = (dum + ufintp(ii,kx,ky,kz))*delt_dual(ii);
+          xintp(ii,kx,ky,kz) = dum + ufintp(ii,kx,ky,kz); // defgradavg includes delt
         }
   }); // end FOR_ALL_CLASS
   Kokkos::fence();
-- 
2.43.0


From 50ff094a5b9b46f200d4fa11065443a04cdf77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 64/87] fix: lines of the thermal strains may end with text,
 like all others

---
 apps/micromechanics/EVPFFT/src/vpsc_input.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
index 11b26cb..a50fb15 100644
--- a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
@@ -205,7 +205,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
index dda515d..ff5494b 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
@@ -211,7 +211,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
index 2a5d0e2..2e0242f 100644
--- a/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
@@ -211,7 +211,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
index 9df34b1..5c506f8 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
@@ -231,7 +231,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
-- 
2.43.0


From 6ed97f0a373a69e22d5321bb07e3b629dceddc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 65/87] fix: the fraction of the first phase counted the voxels
 of one rank only

---
 apps/micromechanics/EVPFFT/src/data_grain.cpp       | 1 +
 apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp | 1 +
 apps/micromechanics/LS-EVPFFT/src/data_grain.cpp    | 1 +
 apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/data_grain.cpp b/apps/micromechanics/EVPFFT/src/data_grain.cpp
index d9c5fa0..a67724f 100644
--- a/apps/micromechanics/EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_grain.cpp
@@ -144,6 +144,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
index 2fbded4..9582d27 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
@@ -144,6 +144,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
index 2fbded4..9582d27 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
@@ -144,6 +144,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
index 3784294..eaed6d0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
@@ -148,6 +148,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
-- 
2.43.0


From 0bfcd6880d7dccd393e8868ad96c4330450de403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 66/87] fix: slip systems with a negative product of normal and
 direction were taken as orthogonal

---
 apps/micromechanics/EVPFFT/src/data_crystal.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/data_crystal.cpp b/apps/micromechanics/EVPFFT/src/data_crystal.cpp
index ab38313..b3aeb8d 100644
--- a/apps/micromechanics/EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_crystal.cpp
@@ -198,7 +198,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
index c3f31fd..b62c1e4 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
@@ -217,7 +217,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
             prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
           }
   
-          if (prod >= 1.0e-3) {
+          if (fabs(prod) >= 1.0e-3) {
             printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
             printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
             printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp b/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
index 41de50d..db227ee 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
@@ -217,7 +217,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
index ab38313..b3aeb8d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
@@ -198,7 +198,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
-- 
2.43.0


From 1d44da4e575c98b90b566fb004180cc450255aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 67/87] fix: nodes of the large strain solver were numbered
 within a rank, so the drawn grid depended on the ranks

---
 apps/micromechanics/LS-EVPFFT/src/evpfft.cpp              | 6 +++---
 apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp | 6 +++---
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
index efbe149..fce5435 100644
--- a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
@@ -444,9 +444,9 @@ void EVPFFT::init_defgrad() {
     // create views of thread private arrays
     ViewMatrixTypeReal x(x_,3);
 
-    x(1) = (float)i - 0.5;
-    x(2) = (float)j - 0.5;
-    x(3) = (float)k - 0.5;
+    x(1) = 1.0*(i + local_start1) - 0.5;
+    x(2) = 1.0*(j + local_start2) - 0.5;
+    x(3) = 1.0*(k + local_start3) - 0.5;
 
     for (int ii = 1; ii <= 3; ii++) {
       xnode(ii,i,j,k) = 0.0;
diff --git a/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp b/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp
index ca212db..7b4cde9 100644
--- a/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp
@@ -231,9 +231,9 @@ void EVPFFT::update_grid_velgrad()
       kv2 = k+local_start3;
     }
 
-    Xnode_ref(1) = float(i) - 0.5;
-    Xnode_ref(2) = float(j) - 0.5;
-    Xnode_ref(3) = float(k) - 0.5;
+    Xnode_ref(1) = 1.0*(i + local_start1) - 0.5;
+    Xnode_ref(2) = 1.0*(j + local_start2) - 0.5;
+    Xnode_ref(3) = 1.0*(k + local_start3) - 0.5;
 
     for (int ii = 1; ii <= 3; ii++) {
       dvnode(ii) = 0.125*(workG(ii,jj,iv1,jv1,kv1) + workG(ii,jj,iv2,jv1,kv1) + 
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index bee307e..a10ad52 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -522,9 +522,9 @@ void EVPFFT::write_micro_state_pvtu()
           kx, 1, npts1+1, {
 
         double xtmp[3];
-        xtmp[0] = double(kx);
-        xtmp[1] = double(ky);
-        xtmp[2] = double(kz);
+        xtmp[0] = double(kx+local_start1);
+        xtmp[1] = double(ky+local_start2);
+        xtmp[2] = double(kz+local_start3);
         for (int ii = 1; ii <= 3; ii++) {
           real_t dum = 0.0;
           for (int jj = 1; jj <= 3; jj++) {
-- 
2.43.0


From 0796119cf1ce7cddb690072a494d21f798fda8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 68/87] fix: nodes moved with the velocities of another rank's
 voxels in the rotated scheme

---
 apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp b/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp
index 3ad0f0c..ad71a20 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp
@@ -100,17 +100,17 @@ void EVPFFT::update_grid()
       if ((i+local_start1) == npts1_g + 1) {
         ind = 1;
       } else {
-        ind = i;
+        ind = i + local_start1;
       }
       if ((j+local_start2) == npts2_g + 1) {
         jnd = 1;
       } else {
-        jnd = j;
+        jnd = j + local_start2;
       }
       if ((k+local_start3) == npts3_g + 1) {
         knd = 1;
       } else {
-        knd = k;
+        knd = k + local_start3;
       }
 
       for (int ii = 1; ii <= 3; ii++) {
-- 
2.43.0


From 00deb4622c1e52759337a78775e6a312f70ff72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 69/87] fix: weight of a voxel and rows read were wrong for
 grids of unequal sides in the non-periodic solver

---
 apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp b/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp
index fd31bf6..133b382 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp
@@ -14,7 +14,7 @@ void EVPFFT::allocate_memory()
   local_end1 = fft->localRealBoxes[my_rank].high[0];
   local_end2 = fft->localRealBoxes[my_rank].high[1];
   local_end3 = fft->localRealBoxes[my_rank].high[2];
-  wgt = real_t(1.0) / real_t((npts1_g-2*dnpts1_g)*(npts2_g-2*dnpts2_g)*(npts2_g-2*dnpts2_g));
+  wgt = real_t(1.0) / real_t((npts1_g-2*dnpts1_g)*(npts2_g-2*dnpts2_g)*(npts3_g-2*dnpts3_g));
   wgttot = real_t(1.0) / real_t(npts1_g*npts2_g*npts3_g);
 
   npts1_g_cmplx = fft->globalComplexBoxSize[0];
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
index eaed6d0..a65bc86 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
@@ -196,7 +196,7 @@ void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
   }
 
   for (int kk = 0 + dnpts3_g; kk < npts3_g - dnpts3_g; kk++) {
-    for (int jj = 0 + dnpts2_g; jj < npts2_g - dnpts3_g; jj++) {
+    for (int jj = 0 + dnpts2_g; jj < npts2_g - dnpts2_g; jj++) {
       for (int ii = 0 + dnpts1_g; ii < npts1_g - dnpts1_g; ii++) {
       
         ur2 >> ph >> th >> om >> iiii >> jjjj >> kkkk >> jgr >> jph; CLEAR_LINE(ur2);
-- 
2.43.0


From 5af2283c74be3f560ca2e0ca684ab9d8bc953640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 70/87] fix: inverse of matrices with a vanishing pivot, such
 as rotations by 90 degrees

---
 apps/micromechanics/EVPFFT/src/math_functions.h      | 12 ++++++++++++
 .../micromechanics/LS-EVPFFT-J2/src/math_functions.h | 12 ++++++++++++
 apps/micromechanics/LS-EVPFFT/src/math_functions.h   | 12 ++++++++++++
 apps/micromechanics/LSNP-EVPFFT/src/math_functions.h | 12 ++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/math_functions.h b/apps/micromechanics/EVPFFT/src/math_functions.h
index 3678015..d62236f 100644
--- a/apps/micromechanics/EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/EVPFFT/src/math_functions.h
@@ -46,6 +46,18 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Bring the row with the largest pivot up: matrices such as rotations may have a zero on the diagonal
+        int pivot_row = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivot_row * n + i))) {
+                pivot_row = j;
+            }
+        }
+        if (pivot_row != i) {
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
             return error_flag;
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
index 3eb51cc..fc71ce0 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
@@ -46,6 +46,18 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Bring the row with the largest pivot up: matrices such as rotations may have a zero on the diagonal
+        int pivot_row = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivot_row * n + i))) {
+                pivot_row = j;
+            }
+        }
+        if (pivot_row != i) {
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
             return error_flag;
diff --git a/apps/micromechanics/LS-EVPFFT/src/math_functions.h b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
index 3eb51cc..fc71ce0 100644
--- a/apps/micromechanics/LS-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
@@ -46,6 +46,18 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Bring the row with the largest pivot up: matrices such as rotations may have a zero on the diagonal
+        int pivot_row = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivot_row * n + i))) {
+                pivot_row = j;
+            }
+        }
+        if (pivot_row != i) {
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
             return error_flag;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
index 3eb51cc..fc71ce0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
@@ -46,6 +46,18 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Bring the row with the largest pivot up: matrices such as rotations may have a zero on the diagonal
+        int pivot_row = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivot_row * n + i))) {
+                pivot_row = j;
+            }
+        }
+        if (pivot_row != i) {
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
             return error_flag;
-- 
2.43.0


From 48c3dfe63077750a7e918318c2ffdac39d0e87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 71/87] fix: faces of a grid of unequal sides were missed by
 the boundary conditions of the non-periodic solver

---
 .../LSNP-EVPFFT/src/calc_eigenvelgradref.cpp         |  6 +++---
 .../LSNP-EVPFFT/src/calc_vel_bc_error.cpp            | 12 ++++++------
 .../LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp     | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_eigenvelgradref.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_eigenvelgradref.cpp
index 92ee554..7e26003 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_eigenvelgradref.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_eigenvelgradref.cpp
@@ -34,9 +34,9 @@ void EVPFFT::calc_eigenvelgradref()
     j_gs = j_g - dnpts2_g;
     k_gs = k_g - dnpts3_g;
 
-    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (k_gs == 1 || k_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (k_gs == 1 || k_gs == npts3_g - 2*dnpts3_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
 
       indf(i,j,k) = 1.0;
  
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp
index 410dc59..8783be8 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp
@@ -37,9 +37,9 @@ void EVPFFT::calc_vel_bc_error()
     j_gs = j_g - dnpts2_g;
     k_gs = k_g - dnpts3_g;
 
-    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (k_gs == 1 || k_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (k_gs == 1 || k_gs == npts3_g - 2*dnpts3_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
 
       // averages packed in array
       int ic;
@@ -98,9 +98,9 @@ void EVPFFT::calc_vel_bc_error()
     j_gs = j_g - dnpts2_g;
     k_gs = k_g - dnpts3_g;
 
-    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (k_gs == 1 || k_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (k_gs == 1 || k_gs == npts3_g - 2*dnpts3_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
 
       real_t veln;
       real_t dveln;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp
index 5d4025a..9b9a09f 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp
@@ -27,9 +27,9 @@ void EVPFFT::calc_vel_boundary_lin_el()
     j_g = j + local_start2 - dnpts2_g;
     k_g = k + local_start3 - dnpts3_g;
 
-    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (k_g == 1 || k_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (k_g == 1 || k_g == npts3_g - 2*dnpts3_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
 
     // if ((i_g == 1 || j_g == 1 || k_g == 1 || 
     //     i_g == npts1_g - 2*dnpts1_g + 1 || j_g == npts2_g - 2*dnpts2_g + 1 || 
@@ -106,9 +106,9 @@ void EVPFFT::calc_vel_boundary_lin_el()
     j_g = j + local_start2 - dnpts2_g;
     k_g = k + local_start3 - dnpts3_g;
 
-    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (k_g == 1 || k_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (k_g == 1 || k_g == npts3_g - 2*dnpts3_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
 
     // if ((i_g == 1 || j_g == 1 || k_g == 1 || 
     //     i_g == npts1_g - 2*dnpts1_g + 1 || j_g == npts2_g - 2*dnpts2_g + 1 || 
-- 
2.43.0


From 8f4d688a936d23334db810bfd21fd8aac4611d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 72/87] fix: grids of odd sides have no wave of half their
 length: it was taken for another

---
 .../LS-EVPFFT-J2/src/inverse_the_greens.cpp          |  6 +++---
 .../LSNP-EVPFFT/src/update_grid_velgrad.cpp          | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
index 895d08a..7b0bae0 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
@@ -41,9 +41,9 @@ void EVPFFT::inverse_the_greens()
       } // end for i
     } // end if (xknorm != 0.0)
 
-    if ( kxx + local_start1_cmplx == npts1_g/2+1 || 
-         kyy + local_start2_cmplx == npts2_g/2+1 || 
-         (npts3_g > 1 && kzz + local_start3_cmplx == npts3_g/2+1) ) {
+    if ( (kxx + local_start1_cmplx == npts1_g/2+1 && npts1_g % 2 == 0) || 
+         (kyy + local_start2_cmplx == npts2_g/2+1 && npts2_g % 2 == 0) || 
+         (npts3_g > 1 && (kzz + local_start3_cmplx == npts3_g/2+1 && npts3_g % 2 == 0)) ) {
       for (int l = 1; l <= 3; l++) {
         for (int k = 1; k <= 3; k++) {
           for (int j = 1; j <= 3; j++) {
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/update_grid_velgrad.cpp b/apps/micromechanics/LSNP-EVPFFT/src/update_grid_velgrad.cpp
index 9790802..1339ba1 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/update_grid_velgrad.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/update_grid_velgrad.cpp
@@ -123,9 +123,9 @@ void EVPFFT::update_grid_velgrad()
       xkxk = xk(1)*xk(1) + xk(2)*xk(2) + xk(3)*xk(3);
   
       if (xkxk > 0.0 && 
-        !(i + local_start1_cmplx == npts1_g/2+1 || 
-          j + local_start2_cmplx == npts2_g/2+1 || 
-          (npts3_g > 1 && k + local_start3_cmplx == npts3_g/2+1))) {
+        !((i + local_start1_cmplx == npts1_g/2+1 && npts1_g % 2 == 0) || 
+          (j + local_start2_cmplx == npts2_g/2+1 && npts2_g % 2 == 0) || 
+          (npts3_g > 1 && (k + local_start3_cmplx == npts3_g/2+1 && npts3_g % 2 == 0)))) {
   
         for (int ii = 1; ii <= 3; ii++) {
           velhatr(ii) = 0.0;
@@ -151,9 +151,9 @@ void EVPFFT::update_grid_velgrad()
       krot_ckrot = POW2(krot_re(1)) + POW2(krot_im(1)) + POW2(krot_re(2)) +
           POW2(krot_im(2)) + POW2(krot_re(3)) + POW2(krot_im(3));
       if (abs(krot_ckrot) >= 1.0e-15 && 
-        !(i + local_start1_cmplx == npts1_g/2+1 || 
-          j + local_start2_cmplx == npts2_g/2+1 || 
-          (npts3_g > 1 && k + local_start3_cmplx == npts3_g/2+1))) {
+        !((i + local_start1_cmplx == npts1_g/2+1 && npts1_g % 2 == 0) || 
+          (j + local_start2_cmplx == npts2_g/2+1 && npts2_g % 2 == 0) || 
+          (npts3_g > 1 && (k + local_start3_cmplx == npts3_g/2+1 && npts3_g % 2 == 0)))) {
 
         for (int ii = 1; ii <= 3; ii++) {
           velhatr(ii) = 0.0;
-- 
2.43.0


From fd42b9fc85f12f640f7edeae85949ab5b83d5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 73/87] fix: voxel lengths were ignored by the wave numbers of
 the isotropic large strain solver

---
 apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
index a74f396..6d8ad1f 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
@@ -167,26 +167,30 @@ void EVPFFT::init_after_reading_input_data()
 
 void EVPFFT::init_xk_gb()
 {
+  // length of the voxels
+  real_t delt1 = delt(1);
+  real_t delt2 = delt(2);
+  real_t delt3 = delt(3);
 
   FOR_ALL_CLASS(kxx, 0, npts1, {
         int kx;
         kx = kxx + local_start1_cmplx;
         if (kx >  npts1_g/2) kx = kx-npts1_g;
-        xk_gb(kxx+1) = kx/float(npts1_g);
+        xk_gb(kxx+1) = kx/(delt1*npts1_g);
   });
 
   FOR_ALL_CLASS(kyy, 0, npts2, {
         int ky;
         ky = kyy + local_start2_cmplx;
         if (ky >  npts2_g/2) ky = ky-npts2_g;
-        yk_gb(kyy+1) = ky/float(npts2_g);
+        yk_gb(kyy+1) = ky/(delt2*npts2_g);
   });
 
   FOR_ALL_CLASS(kzz, 0, npts3, {
         int kz;
         kz = kzz + local_start3_cmplx;
         if (kz >  npts3_g/2) kz = kz-npts3_g;
-        zk_gb(kzz+1) = kz/float(npts3_g);
+        zk_gb(kzz+1) = kz/(delt3*npts3_g);
   });
   Kokkos::fence();
 
-- 
2.43.0


From e2e93af4db0a387c0abb12ae2d71401a09f75f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 74/87] fix: macroscopic rates written by the large strain
 solvers were the guess, not the rates found

---
 .../micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp | 8 ++++----
 apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp   | 8 ++++----
 apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp
index ee13dc2..3c856f0 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp
@@ -24,8 +24,8 @@ void EVPFFT::write_macro_state()
             scauav(2,3),scauav(1,3),scauav(1,2),
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2),
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2),
             edotpav(1,1),edotpav(2,2),edotpav(3,3),
             edotpav(2,3),edotpav(1,3),edotpav(1,2),
             evm,evmp,dvm,dvmp,svm);
@@ -46,8 +46,8 @@ void EVPFFT::write_macro_state()
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,",
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2) );
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2) );
 
     fprintf(ofile_mgr.str_str_file.get(),
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,"
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp
index ee13dc2..3c856f0 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp
@@ -24,8 +24,8 @@ void EVPFFT::write_macro_state()
             scauav(2,3),scauav(1,3),scauav(1,2),
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2),
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2),
             edotpav(1,1),edotpav(2,2),edotpav(3,3),
             edotpav(2,3),edotpav(1,3),edotpav(1,2),
             evm,evmp,dvm,dvmp,svm);
@@ -46,8 +46,8 @@ void EVPFFT::write_macro_state()
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,",
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2) );
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2) );
 
     fprintf(ofile_mgr.str_str_file.get(),
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,"
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp
index ee13dc2..3c856f0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp
@@ -24,8 +24,8 @@ void EVPFFT::write_macro_state()
             scauav(2,3),scauav(1,3),scauav(1,2),
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2),
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2),
             edotpav(1,1),edotpav(2,2),edotpav(3,3),
             edotpav(2,3),edotpav(1,3),edotpav(1,2),
             evm,evmp,dvm,dvmp,svm);
@@ -46,8 +46,8 @@ void EVPFFT::write_macro_state()
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,",
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2) );
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2) );
 
     fprintf(ofile_mgr.str_str_file.get(),
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,"
-- 
2.43.0


From 9d623633b7058b66d4d469d2afa7a687e2ddc18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 75/87] fix: strain rates found from the stress were lost at
 every step of the large strain solvers

---
 apps/micromechanics/LS-EVPFFT/src/evpfft.cpp   | 9 +++++++++
 apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
index fce5435..2245c10 100644
--- a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
@@ -476,6 +476,15 @@ void EVPFFT::evolve()
           velgradmacro.host(ii,jj)  = udot.host(ii,jj);
         }
       }
+      // velgrad goes on from the last step: so do its components that are found from the stress
+      if (imicro > 1) {
+        const int ijv[6][2] = {{1,1},{2,2},{3,3},{2,3},{1,3},{1,2}};
+        for (int i = 0; i < 6; i++) {
+          if (idsim(i+1) == 0) {
+            velgradmacro.host(ijv[i][0],ijv[i][1]) = velgradmacroactual(ijv[i][0],ijv[i][1]);
+          }
+        }
+      }
       if (imicro == 1) {
         step_update_velgrad();
       }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
index 4d47240..e0970c0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
@@ -570,6 +570,15 @@ void EVPFFT::evolve()
           velgradmacro.host(ii,jj)  = udot.host(ii,jj);
         }
       }
+      // velgrad goes on from the last step: so do its components that are found from the stress
+      if (imicro > 1) {
+        const int ijv[6][2] = {{1,1},{2,2},{3,3},{2,3},{1,3},{1,2}};
+        for (int i = 0; i < 6; i++) {
+          if (idsim(i+1) == 0) {
+            velgradmacro.host(ijv[i][0],ijv[i][1]) = velgradmacroactual(ijv[i][0],ijv[i][1]);
+          }
+        }
+      }
       if (imicro == 1) {
         step_update_velgrad();
       }
-- 
2.43.0


From fbd76a2f156011799204cccd7bc693b11dfe5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 76/87] fix: graphics collections listed files of materials
 that are not on the mesh

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 0ae7561..f14ef33 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2717,7 +2717,7 @@ public:
 
 
             // note: the file path and folder was created in the elem and node outputs
-            size_t num_mat_files_written = 0;
+            std::vector<size_t> mat_ids_written; // the materials that live on the mesh
             if(num_mat_pt_scalar_vars > 0 || num_mat_pt_tensor_vars >0){
 
                 for (int mat_id = 0; mat_id < num_mats; mat_id++) {
@@ -2807,7 +2807,7 @@ public:
                                   solver_id);
 
 
-                        num_mat_files_written++;
+                        mat_ids_written.push_back(mat_id);
 
                     } // end for mat_id
 
@@ -2848,7 +2848,7 @@ public:
                       mat_fields_name,
                       time_value,
                       graphics_id,
-                      num_mat_files_written,
+                      mat_ids_written,
                       write_mesh_state,
                       write_mat_pt_state,
                       solver_id);
@@ -4509,7 +4509,7 @@ public:
                    const  std::string& mat_part_name,
                    double time_value,
                    int graphics_id,
-                   int num_mats,
+                   const std::vector<size_t>& mat_ids_written,
                    bool write_mesh_state,
                    bool write_mat_pt_state,
                    const size_t solver_id)
@@ -4557,7 +4557,7 @@ public:
             // note: the block_id was incremented if an element average field output was made
             if (write_mat_pt_state){
                 fprintf(out[0], "    <Block index=\"%zu\" name=\"Mat\">\n", block_id);
-                for (size_t mat_id=0; mat_id<num_mats; mat_id++){
+                for (size_t mat_id : mat_ids_written){
                     
                     // output the material specific fields
                     fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_id, mat_id);
-- 
2.43.0


From 6575b692764b5d57c8d40c83c84d60827dd341b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 77/87] fix: an unknown equation of state type was ignored

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index aa639a3..8de1b06 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -260,6 +260,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
-- 
2.43.0


From 7af1b5022bd1fafee6c9eafb05f56c8736607f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 78/87] fix: an unknown temperature boundary condition was
 ignored

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..2c45587 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -371,6 +371,16 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else{
+                    std::cout << "ERROR: invalid boundary condition option input in YAML file: " << temperature_model << std::endl;
+                    std::cout << "Valid options are: " << std::endl;
+
+                    for (const auto& pair : map) {
+                        std::cout << "\t" << pair.first << std::endl;
+                    }
+
+                    throw std::runtime_error("**** Boundary Condition Temperature Model Not Understood ****");
+                } // end if
 
             }   
 
-- 
2.43.0


From 0705e78ba5fcae0295269a8394339777aaf31984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 79/87] fix: a negative density was reported but used

---
 apps/multiphysics/src/input/parse_regions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..7193aad 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -177,6 +177,7 @@ void parse_regions(Yaml::Node& root,
                         // check for a valid density, and then save it if it is
                         if (value < 0.0) {
                             std::cout << "ERROR: density is negative: " << value << std::endl;
+                            throw std::runtime_error("**** Density is negative ****");
                         }
 
                         RUN({
-- 
2.43.0


From e1ac8c8a697a02dcb95dc4c391982b0899a2d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 80/87] fix: an input file that cannot be read ended with the
 status of success

---
 apps/multiphysics/src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index e2588c9..1d23da3 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -60,7 +60,7 @@ void Driver::initialize()
     catch (const Yaml::Exception e)
     {
         std::cout << "Exception " << e.Type() << ": " << e.what() << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     parse_yaml(root, SimulationParamaters, Materials, BoundaryConditions);
-- 
2.43.0


From 9e855227a0277c2ea5a869b4ea33a3d8af7376d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 81/87] fix: a mesh file given with a generated mesh ended with
 the status of success

---
 apps/multiphysics/src/input/parse_mesh_inputs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/input/parse_mesh_inputs.cpp b/apps/multiphysics/src/input/parse_mesh_inputs.cpp
index 31817c2..ed12605 100644
--- a/apps/multiphysics/src/input/parse_mesh_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_mesh_inputs.cpp
@@ -301,7 +301,7 @@ void parse_mesh_inputs(Yaml::Node& root, mesh_input_t& mesh_input)
             // check to see if a file path was set
             if(mesh_input.file_path.size()>0){
                 std::cout << "ERROR: When the mesh source is set to generate, a mesh file cannot be passed in" << std::endl;
-                exit(0);
+                exit(EXIT_FAILURE);
             }
 
         }
-- 
2.43.0


From 2d1e82b9705261a8724a9c9d55a0c0077bddcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 82/87] fix: unknown blocks of an input file were ignored

---
 apps/multiphysics/src/input/parse_yaml.cpp | 26 ++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_yaml.cpp b/apps/multiphysics/src/input/parse_yaml.cpp
index f232fa7..2861062 100644
--- a/apps/multiphysics/src/input/parse_yaml.cpp
+++ b/apps/multiphysics/src/input/parse_yaml.cpp
@@ -82,6 +82,32 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 void parse_yaml(Yaml::Node& root, SimulationParameters_t& SimulationParamaters, Material_t& Materials, BoundaryCondition_t& Boundary)
 {
 
+    // the blocks an input file is made of
+    const std::vector<std::string> str_blocks = {
+        "mesh_options",
+        "dynamic_options",
+        "output_options",
+        "solver_options",
+        "boundary_conditions",
+        "regions",
+        "materials",
+        "multimaterial_options"
+    };
+
+    for (auto item = root.Begin(); item != root.End(); item++) {
+        std::string block = (*item).first;
+
+        if (std::find(str_blocks.begin(), str_blocks.end(), block) == str_blocks.end()) {
+            std::cout << "ERROR: invalid input: " << block << std::endl;
+            std::cout << "Valid options are: " << std::endl;
+
+            for (const auto& element : str_blocks) {
+                std::cout << element << std::endl;
+            }
+            throw std::runtime_error("**** Input File Not Understood ****");
+        }
+    } // end for over the blocks in the input file
+
     parse_mesh_inputs(root, SimulationParamaters.mesh_input);
 
     parse_dynamic_options(root, SimulationParamaters.dynamic_options);
-- 
2.43.0


From a948f3abe6b4dc8e54985e1c931e54a3f6ba81e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 83/87] fix: an unknown volume type of a region was ignored

---
 apps/multiphysics/src/input/parse_regions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index 7193aad..9ced339 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1442,6 +1442,10 @@ void parse_regions(Yaml::Node& root,
                                     break;
                             } // end switch
                         } // end if on setting volume tag
+                        else{
+                            std::cout << "ERROR: invalid input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
+                        } // end if
 
                     }  // end if on volume type
                     // Get mesh file path
-- 
2.43.0


From 2b0a4f8c8137b8abfd7a8d00477c17da93225687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 84/87] fix: solver and material ids of regions were not
 checked

---
 apps/multiphysics/src/input/parse_regions.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index 9ced339..4e9f1bc 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -100,6 +100,9 @@ void parse_regions(Yaml::Node& root,
 
     size_t num_regions = region_yaml.Size();
 
+    // regions are filled with the materials of the input file
+    size_t num_materials = root["materials"].Size();
+
     // reg_fills_in_solver(solver_id, fill_lid) = fill_id
     reg_fills_in_solver = DCArrayKokkos<size_t>(num_solvers, num_regions, "sim_param.region_setup.reg_fills_in_solver");
     region_fills = CArrayKokkos<RegionFill_t>(num_regions , "sim_param.region_setup.region_fills");
@@ -125,7 +128,13 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
-                
+
+                if (solver_id<0 || solver_id>=num_solvers){
+                    std::cout << "ERROR: invalid solver_id specified in the region definition. Either negative or >= num_solvers" << std::endl;
+
+                    throw std::runtime_error("**** Solver_id is out of bounds ****");
+                } // end check on solver_id range
+
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
 
@@ -140,6 +149,12 @@ void parse_regions(Yaml::Node& root,
             else if (a_word.compare("material_id") == 0) {
                 int id = root["regions"][reg_id]["region"][a_word].As<int>();
 
+                if (id<0 || id>=num_materials){
+                    std::cout << "ERROR: invalid material_id specified in the region definition " << std::endl;
+
+                    throw std::runtime_error("**** Material_id is out of bounds ****");
+                } // end check on material_id range
+
                 RUN({
                     region_fills(reg_id).material_id = id;
                 });
-- 
2.43.0


From 229cb2eb8e34e88e38fa8da9dadffc6394cec206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 85/87] fix: unknown entries of tabular models were ignored

---
 .../src/input/parse_material_inputs.cpp         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 8de1b06..4d3b6f9 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -809,6 +809,23 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
 
             } // end else if
             else if (a_word.compare("tabular_model") == 0) {
+
+                // the words under tabular_model
+                const std::vector<std::string> str_tabular_words = { "type", "file_format", "tabular_data", "fields" };
+
+                for (auto item = material_inps_yaml.Begin(); item != material_inps_yaml.End(); item++) {
+                    std::string tabular_word = (*item).first;
+
+                    if (std::find(str_tabular_words.begin(), str_tabular_words.end(), tabular_word) == str_tabular_words.end()) {
+                        std::cout << "ERROR: invalid input: " << tabular_word << std::endl;
+                        std::cout << "Valid options are: " << std::endl;
+                        for (const auto& element : str_tabular_words) {
+                            std::cout << element << std::endl;
+                        }
+                        throw std::runtime_error("**** Tabular model Not Understood ****");
+                    }
+                } // end for over the words under tabular_model
+
                 std::string tabular_model_type = root["materials"][m_id]["material"]["tabular_model"]["type"].As<std::string>();
 
                 // check that the tabular model is valid
-- 
2.43.0


From 660de1bc20719642b14d09cf4f14d3ef3ae46453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 86/87] fix: geo_equilibration_model sets the geometric
 equilibration model

It set the material equilibration model, so that decks that ask for geometric
equilibration ran the relaxation of the material volume fractions instead, with
the parameters of a model that was not asked for.
---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 4d3b6f9..c34abb2 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1119,17 +1119,17 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
                 switch(equilibration_model_map[equilibration_model]){
                     case model::tiptonEquilibration:
                     {
-                        Materials.EquilibrationModels = model::tiptonEquilibration;
+                        Materials.GeoEquilibrationModels = model::tiptonEquilibration;
                         break;
                     }
                     case model::userDefinedEquilibration:
                     {
-                        Materials.EquilibrationModels = model::userDefinedEquilibration;
+                        Materials.GeoEquilibrationModels = model::userDefinedEquilibration;
                         break;
                     }
                     case model::noEquilibration:
                     {
-                        Materials.EquilibrationModels = model::noEquilibration;
+                        Materials.GeoEquilibrationModels = model::noEquilibration;
                         break;
                     }
                     default:
-- 
2.43.0


From 35aae8e050a1c73e9e6ef56a4586732cf27a8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 87/87] fix: an equilibration model without its parameters read
 an empty array

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index c34abb2..4c72a94 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1207,5 +1207,13 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
 
     } // end loop over words
 
+    // the equilibration models read their parameters
+    if (Materials.EquilibrationModels != model::noEquilibration && Materials.equilibration_global_vars.size() == 0) {
+        throw std::runtime_error("**** mat_equilibration_model requires mat_equilibration_global_vars ****");
+    }
+    if (Materials.GeoEquilibrationModels != model::noEquilibration && Materials.geo_equilibration_global_vars.size() == 0) {
+        throw std::runtime_error("**** geo_equilibration_model requires geo_equilibration_global_vars ****");
+    }
+
 
 } // end of function to parse multimaterial information
\ No newline at end of file
-- 
2.43.0

