From e6b192ebcd82f846264c9c6e35b1157d53e67fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 01/24] fix: MNIST and CIFAR readers detect short reads and
 recover the stream

A failed read left the stream in a failed state for ever and handed out
zero-filled or indeterminate records.  Clear the state before each access
and throw when the record or header could not be read completely.
---
 source/parser/cifar.hpp | 16 ++++++++++++++--
 source/parser/mnist.hpp | 24 +++++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..448da51 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -484,12 +484,18 @@ public:
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
                 + _label_offset),
             _batch_ifs.beg);
-        return CifarImage{_batch_ifs, idx, _order};
+        CifarImage ret{_batch_ifs, idx, _order};
+        if (!_batch_ifs)
+        {
+            throw std::runtime_error("Batch malformed: could not read image");
+        }
+        return ret;
     }
 
     /**
@@ -500,10 +506,16 @@ public:
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
-        return CifarLabel{_batch_ifs, idx, _dataset};
+        CifarLabel ret{_batch_ifs, idx, _dataset};
+        if (!_batch_ifs)
+        {
+            throw std::runtime_error("Batch malformed: could not read label");
+        }
+        return ret;
     }
 
     /**
diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..fc976f4 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -72,9 +72,13 @@ static inline std::uint32_t& uint32_endian_order(std::uint32_t& i)
  */
 static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
-    std::uint32_t ret;
+    std::uint32_t ret{};
     char* buf = reinterpret_cast<char*>(&ret);
     ifs.read(buf, 4);
+    if (!ifs)
+    {
+        throw std::runtime_error("Data malformed: unexpected end of file");
+    }
     uint32_endian_order(ret);
     return ret;
 }
@@ -370,10 +374,17 @@ public:
      */
     MnistImage image(std::size_t idx)
     {
+        if (_size == 0) throw std::runtime_error("Mnist dataset is empty");
         idx = idx % _size;
+        _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
-        return MnistImage{_image_ifs, idx};
+        MnistImage ret{_image_ifs, idx};
+        if (!_image_ifs)
+        {
+            throw std::runtime_error("Images malformed: could not read image");
+        }
+        return ret;
     }
 
     /**
@@ -383,10 +394,17 @@ public:
      */
     MnistLabel label(std::size_t idx)
     {
+        if (_size == 0) throw std::runtime_error("Mnist dataset is empty");
         idx = idx % _size;
+        _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
-        return MnistLabel{_label_ifs, idx};
+        MnistLabel ret{_label_ifs, idx};
+        if (!_label_ifs)
+        {
+            throw std::runtime_error("Labels malformed: could not read label");
+        }
+        return ret;
     }
 
     /**
-- 
2.43.0


From 2c4a126d22848568907ad62ec911ca8b38f3b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 02/24] fix: perceived brightness adds the blue channel
 contribution

---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 448da51..85301ba 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From a0b0beb7aa01c119260244c10c40db33847a33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 03/24] fix: value-initialise conversion results of CSV and
 JSON fields

Extraction from an empty field leaves its target untouched, so the
conversions returned indeterminate values.
---
 source/parser/csv.hpp  | 4 ++--
 source/parser/json.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..880f625 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -120,7 +120,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -380,7 +380,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..d2faea2 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -590,7 +590,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From 119ea3f3e77de89eac5e5117d93ac489e1b0587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 04/24] fix: CSV counts and iterates every row

A last line without terminator was not counted, iteration stopped before
the last row, and an empty file led to a division by zero.
---
 source/parser/csv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 880f625..17968e4 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -40,6 +40,7 @@
 #include <limits>
 #include <stdexcept>
 #include <iterator>
+#include <algorithm>
 
 namespace EdgeLearning {
 
@@ -655,11 +656,9 @@ public:
             throw std::runtime_error("Could not open file");
         }
 
-        // Get number of rows.
-        file.unsetf(std::ios_base::skipws);
-        _rows_amount = static_cast<std::size_t>(
-            std::count(std::istream_iterator<char>(file), 
-                std::istream_iterator<char>(), '\n'));
+        // Get number of rows: the last one may lack its line terminator.
+        _rows_amount = 0;
+        for (std::string row; std::getline(file, row); ) ++_rows_amount;
         file.clear();
         file.seekg(0);
 
@@ -730,10 +729,11 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
+        if (_rows_amount == 0) throw std::runtime_error("CSV file is empty");
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
@@ -765,8 +765,8 @@ public:
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
-                           _separator}; 
+        return CSVIterator{_fn, std::max(_rows_amount, std::size_t{1}),
+                           _cols_amount, _types, _separator};
     }
 
     /**
@@ -889,7 +889,7 @@ public:
 
     SizeType entries_amount() const override
     {
-        return rows_size() - 1;
+        return rows_size() == 0 ? 0 : rows_size() - 1;
     }
 
     SizeType feature_size() const override
-- 
2.43.0


From e81b67b73182e863bc8ddae58c937186560c2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 05/24] fix: a copied CSV object owns the types its rows refer
 to

The implicit copy constructor left the rows of the copy bound to the
types vector of the source object, dangling once the source was gone.
---
 source/parser/csv.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 17968e4..bf25d17 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -693,6 +693,31 @@ public:
         file.close();
     }
 
+    /**
+     * \brief Construct a new CSV object by copy.
+     * \param obj The object to copy. The rows of the copy refer to its types.
+     */
+    CSV(const CSV& obj)
+        : DatasetParser(obj)
+        , _fn{obj._fn}
+        , _types{obj._types}
+        , _row_header{obj._row_header._line, obj._row_header._idx,
+                      obj._row_header._cols_amount, _types, obj._separator}
+        , _row_cache{obj._row_cache._line, obj._row_cache._idx,
+                     obj._row_cache._cols_amount, _types, obj._separator}
+        , _cols_amount{obj._cols_amount}
+        , _rows_amount{obj._rows_amount}
+        , _separator{obj._separator}
+        , _labels_idx{obj._labels_idx}
+    { }
+
+    /**
+     * \brief Assignment operator.
+     * \param obj The object to assign.
+     * \return CSV& The updated object.
+     */
+    CSV& operator=(const CSV& obj) = default;
+
     /**
      * \brief Destroy the CSV object.
      */
-- 
2.43.0


From 1eb6aefd95a8ab4369c8007a33173d53676ae0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 06/24] fix: CSV iterators recover after reading past the last
 row

---
 source/parser/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index bf25d17..2c5f2bc 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -588,6 +588,7 @@ private:
         if (_req_row_idx < _row._idx) 
         {
             _row._idx = 0;
+            _stream.clear();
             _stream.seekg(0);
             std::getline(_stream, _row._line);
         }
-- 
2.43.0


From 1eac3606d677cfebf93ba892a7461eb2ba3c20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 07/24] fix: JSON readers handle empty containers and reject
 partial documents

Reading '{}' or a truncated document looped for ever on a failed stream and
tested uninitialised characters, '[]' produced one empty item, and reading
into a non-empty container kept its old items.
---
 source/parser/json.hpp | 95 +++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 44 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index d2faea2..3b67b7a 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1488,17 +1488,20 @@ inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
 {
-    char c;
-    os.read(&c, 1);
+    char c{};
+    if (!os.read(&c, 1))
+    {
+        throw std::runtime_error("Json malformed: value expected");
+    }
     if (c == '\"')
     {
         obj._type = TypeChecker::Type::STRING;
         std::getline(os, obj._val, '\"');
-        if (!os.eof())
+        if (!os || os.eof())
         {
-            os.read(&c, 1);
-            if (c != ',') os.seekg(-1, os.cur);
+            throw std::runtime_error("Json malformed: unterminated string");
         }
+        if (os.peek() == ',') os.read(&c, 1);
     }
     else
     {
@@ -1537,33 +1540,31 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
-    char c;
-    os.read(&c, 1);
+    char c{};
+    if (!os.read(&c, 1) || c != '[')
+    {
+        throw std::runtime_error("Json malformed: list expected");
+    }
 
-    std::string more_items;
-    while (true) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
+    obj._list.clear();
+    if (os.peek() == ']')
+    {
+        os.read(&c, 1);
+    }
+    while (c != ']')
+    {
         JsonItem ji;
         os >> ji;
         obj._list.push_back(ji);
 
-        os.read(&c, 1);
-        if (c == ']')
+        if (!os.read(&c, 1) || c == '}')
         {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
+            throw std::runtime_error("Json malformed: unterminated list");
         }
+        if (c != ']') os.seekg(-1, os.cur);
     }
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    if (os.peek() == ',') os.read(&c, 1);
     return os;
 }
 
@@ -1585,39 +1586,42 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
-    char c;
-    os.read(&c, 1);
+    char c{};
+    if (!os.read(&c, 1) || c != '{')
+    {
+        throw std::runtime_error("Json malformed: dict expected");
+    }
 
-    std::string more_items;
-    while (true)
+    obj._map.clear();
+    if (os.peek() == '}')
     {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
         os.read(&c, 1);
+    }
+    while (c != '}')
+    {
+        if (!os.read(&c, 1) || c != '\"')
+        {
+            throw std::runtime_error("Json malformed: key expected");
+        }
         std::string key;
         std::getline(os, key, '\"');
-        os.read(&c, 1);
+        if (!os.read(&c, 1) || c != ':')
+        {
+            throw std::runtime_error("Json malformed: ':' expected");
+        }
 
         JsonItem ji;
         os >> ji;
         obj._map[key] = ji;
 
-        os.read(&c, 1);
-        if (c == '}')
+        if (!os.read(&c, 1) || c == ']')
         {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
+            throw std::runtime_error("Json malformed: unterminated dict");
         }
+        if (c != '}') os.seekg(-1, os.cur);
     }
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    if (os.peek() == ',') os.read(&c, 1);
     return os;
 }
 
@@ -1629,8 +1633,11 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
-    char c;
-    os.read(&c, 1);
+    char c{};
+    if (!os.read(&c, 1))
+    {
+        throw std::runtime_error("Json malformed: value expected");
+    }
     os.seekg(-1, os.cur);
     switch(c)
     {
-- 
2.43.0


From c3461d321d89e96afbc26679dec868a4aea4fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 08/24] fix: comparing empty JSON items does not dereference a
 null pointer

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 3b67b7a..53b8511 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1737,6 +1737,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return !_value && !rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 9b2aaabb20964e7c179fe27cac158c5551b1386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 09/24] fix: a JSON item built from a generic object keeps its
 content

The object was sliced to its base class and its value lost.
---
 source/parser/json.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 53b8511..a5c0c47 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -175,10 +175,7 @@ public:
      * \brief Constructor of a JsonItem with a generic reference of JsonObject.
      * \param value const JsonObject& The JsonObject reference object.
      */
-    JsonItem(const JsonObject& value)
-        : JsonObject(value.json_type())
-        , _value(std::make_shared<JsonObject>(value))
-    { }
+    JsonItem(const JsonObject& value);
 
     /**
      * \brief Constructor of a JsonItem with a JsonLeaf reference object.
@@ -1133,6 +1130,22 @@ private:
  */
 using Json = JsonItem;
 
+inline JsonItem::JsonItem(const JsonObject& value)
+    : JsonObject(value.json_type())
+    , _value{}
+{
+    if (auto leaf = dynamic_cast<const JsonLeaf*>(&value))
+        _value = std::make_shared<JsonLeaf>(*leaf);
+    else if (auto list = dynamic_cast<const JsonList*>(&value))
+        _value = std::make_shared<JsonList>(*list);
+    else if (auto dict = dynamic_cast<const JsonDict*>(&value))
+        _value = std::make_shared<JsonDict>(*dict);
+    else if (auto item = dynamic_cast<const JsonItem*>(&value))
+        _value = JsonItem(*item)._value;
+    else
+        _value = std::make_shared<JsonObject>(value);
+}
+
 inline JsonItem::JsonItem(const JsonLeaf& value)
     : JsonObject(value.json_type())
     , _value(std::make_shared<JsonLeaf>(value))
-- 
2.43.0


From 21a7593594afaa367bc7c2d06db0d051b3e0cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 10/24] fix: one-hot encoding places inputs before the labels
 wherever these are

With label columns that are not the last ones, input values were written
over the one-hot region and their own places left zero.
---
 source/parser/parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..a82906a 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -245,14 +245,16 @@ public:
                 {
                     auto row = entry(row_idx);
 
-                    // Copy the input.
+                    // Copy the input, leaving out the label columns.
+                    SizeType input_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + input_idx++]
+                                = row[col_idx];
                         }
                     }
 
-- 
2.43.0


From 79e2481761b26d12870a0b2015b1949a70828fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 11/24] fix: parallel dense backward no longer races on the
 input gradients

---
 source/dnn/dlmath.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..e4b78b3 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1889,11 +1889,21 @@ public:
                     {
                         weight_gradients[(out_idx * input_size) + j] +=
                             gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
                     }
                 }, i));
         }
+        // An input gradient sums over all the outputs: one task for each.
+        for (SizeType j = 0; j < input_size; ++j)
+        {
+            futures.push_back(tm.enqueue(
+                [&](SizeType in_idx) {
+                    for (SizeType i = 0; i < output_size; ++i)
+                    {
+                        input_gradients[in_idx] +=
+                            gradients[i] * weights[(i * input_size) + in_idx];
+                    }
+                }, j));
+        }
         for (auto& f: futures) f.get();
         return input_gradients;
     }
-- 
2.43.0


From bba977157c3c37f1941b5d7a1daae7e1115cef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:54 +0000
Subject: [PATCH 12/24] fix: convolutional backward accumulates the bias
 gradients like the weight gradients

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..163804d 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -129,7 +129,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From 933318d700b82931352ebbbdc50a4caa57779907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:54 +0000
Subject: [PATCH 13/24] fix: convolutional forward adds the bias of each filter

---
 source/dnn/convolutional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 163804d..36576ad 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -106,6 +106,12 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // Add the bias of each filter: filters are the innermost dimension.
+    for (SizeType i = 0; i < _output_activations.size(); ++i)
+    {
+        _output_activations[i] += _biases[i % _n_filters];
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0


From ffd1bd04a71f2710be09fbded4736ae2b71ef00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:54 +0000
Subject: [PATCH 14/24] fix: average pooling backward reaches the first element
 of every window

---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From 1290f4991e8cdc114ecc3211058efb2f4a8658c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:54 +0000
Subject: [PATCH 15/24] fix: max pooling backward starts from the first element
 of the window

---
 source/dnn/max_pooling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..b6cfcef 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -70,9 +70,9 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c];
 
-            NumType max = src[row * static_cast<int64_t>(src_step)
-                              + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
+            NumType max = src[max_row + max_col];
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From 05bc0348154889a5904018beec6df01a02c4f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 16/24] fix: recurrent backward derives the tanh at its stored
 result

---
 source/dnn/recurrent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..86f40d8 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -285,7 +285,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
             case HiddenActivation::TanH:
             default:
             {
-                DLMath::tanh_1<NumType>(
+                // The hidden state already holds the result of the tanh.
+                DLMath::tanh_1_opt<NumType>(
                     next_hidden_state.data(), 
                     _hidden_state.data() + curr_hs_idx * _hidden_size, 
                     _hidden_size);
-- 
2.43.0


From e444dd421c273fe61b69bcdeb563ffdc489548e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:38 +0000
Subject: [PATCH 17/24] fix: recurrent backward uses the hidden state the
 sequence started from

---
 source/dnn/recurrent.cpp | 13 ++++++++++---
 source/dnn/recurrent.hpp |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 86f40d8..7087d92 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -124,6 +124,11 @@ const std::vector<NumType>& RecurrentLayer::forward(
 
     auto *tmp_mul = new NumType[_hidden_size];
 
+    // The last time step overwrites the first hidden state: keep it for the
+    // backward.
+    _first_hidden_state.assign(_hidden_state.data(),
+                               _hidden_state.data() + _hidden_size);
+
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
     {
@@ -219,7 +224,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
 {
     const NumType* curr_sequence_gradients; //< Ptr to the current gradients.
     SizeType curr_hs_idx; //< Current hidden state index.
-    SizeType prev_hs_idx; //< Previous hidden state index.
+    const NumType* prev_hs; //< Ptr to the previous hidden state.
 
     std::vector<NumType> next_hidden_state(
         static_cast<std::size_t>(_hidden_size), NumType{0.0});
@@ -230,7 +235,9 @@ const std::vector<NumType>& RecurrentLayer::backward(
     {
         SizeType t_idx = t - 1;
         curr_hs_idx = (t >= _time_steps) ? 0 : t;
-        prev_hs_idx = t_idx;
+        prev_hs = (t_idx == 0)
+            ? _first_hidden_state.data()
+            : _hidden_state.data() + t_idx * _hidden_size;
         curr_sequence_gradients = gradients.data() + (t_idx * _shared_fields->output_size());
 
         // Bias gradient to output.
@@ -320,7 +327,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
             {
                 _weights_h_to_h_gradients[(i * _hidden_size) + j] += 
                     next_hidden_state[i] 
-                    * _hidden_state[(SizeType(prev_hs_idx) * _hidden_size) + j];
+                    * prev_hs[j];
             }
         }
 
diff --git a/source/dnn/recurrent.hpp b/source/dnn/recurrent.hpp
index 9c51d22..7c20840 100644
--- a/source/dnn/recurrent.hpp
+++ b/source/dnn/recurrent.hpp
@@ -158,6 +158,8 @@ private:
     SizeType _hidden_size;
 
     std::vector<NumType> _hidden_state;
+    /// \brief Hidden state which the last forward started from.
+    std::vector<NumType> _first_hidden_state;
     SizeType _time_steps;
 
     // == Layer parameters ==
-- 
2.43.0


From 6ed032a41210cea3be8c8d7119c713d1cadbe783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:39 +0000
Subject: [PATCH 18/24] fix: recurrent forward of one time step reads the
 hidden state before overwriting it

---
 source/dnn/recurrent.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 7087d92..e4ba775 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -119,13 +119,12 @@ const std::vector<NumType>& RecurrentLayer::forward(
     const std::vector<NumType>& inputs)
 {
     const NumType* curr_sequence; //< Ptr to the current sequence to forward.
-    SizeType curr_hs_idx;         //< Current hidden state index.
+    const NumType* curr_hs;       //< Ptr to the current hidden state.
     SizeType next_hs_idx;         //< Next hidden state index.
 
     auto *tmp_mul = new NumType[_hidden_size];
 
-    // The last time step overwrites the first hidden state: keep it for the
-    // backward.
+    // The last time step overwrites the first hidden state: keep it.
     _first_hidden_state.assign(_hidden_state.data(),
                                _hidden_state.data() + _hidden_size);
 
@@ -133,7 +132,9 @@ const std::vector<NumType>& RecurrentLayer::forward(
     for (SizeType t = 0; t < _time_steps; ++t)
     {
         curr_sequence = inputs.data() + t * _shared_fields->input_size();
-        curr_hs_idx = t;
+        curr_hs = (t == 0)
+            ? _first_hidden_state.data()
+            : _hidden_state.data() + t * _hidden_size;
         next_hs_idx = (t == (_time_steps - 1)) ? 0 : t + 1;
 
         /*
@@ -151,8 +152,7 @@ const std::vector<NumType>& RecurrentLayer::forward(
          * h(t+1) += W_hh * h(t) + b_h
          */
         DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
-            _hidden_state.data() + curr_hs_idx * _hidden_size, 
-            _hidden_size, _hidden_size);
+            curr_hs, _hidden_size, _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
-- 
2.43.0


From 56140f1cb2cd4db348dc5362740e9252ae8863f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:05 +0000
Subject: [PATCH 19/24] fix: swapped and assigned models run over the layers of
 their own graph

---
 source/dnn/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..25d19a2 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -62,6 +62,9 @@ void swap(Model& lop, Model& rop)
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
     swap(lop._state, rop._state);
+    // A graph is copied with new layers: take the lists from there.
+    lop._state.update();
+    rop._state.update();
 }
 
 void Model::create_back_arc(
-- 
2.43.0


From 30275943d7a4b0c1b63ca63be62e7d16ae1bd876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:05 +0000
Subject: [PATCH 20/24] fix: a graph whose layers have no arcs yet knows its
 input and output layers

---
 source/dnn/dlgraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..a7d4f46 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -88,6 +88,8 @@ void DLGraph::add_node(std::shared_ptr<Layer> layer)
     }
 
     _layers.push_back(layer);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 void DLGraph::add_edge(std::shared_ptr<Layer> from, std::shared_ptr<Layer> to)
@@ -191,6 +193,8 @@ void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
     _loss_layers_idx.push_back(_layers.size() - 1);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From bfd753306baa7446f1103d3623a21ff07ec4e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:52 +0000
Subject: [PATCH 21/24] fix: a dataset made of rows counts only the entries of
 its whole sequences

---
 source/data/dataset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..c64a03f 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,6 +174,7 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_amount * _sequence_size;
         _dataset_size = _sequence_amount * _sequence_size * _feature_size;
         _data.resize(_dataset_size);
 
-- 
2.43.0


From 4fdb534e77a539864c54229c2702b48aaf22d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:52 +0000
Subject: [PATCH 22/24] fix: the sequence size of an empty dataset can be set

---
 source/data/dataset.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index c64a03f..0a1647f 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
         _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _feature_amount = _sequence_size * _sequence_amount;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
-- 
2.43.0


From 7e78eb374d07da393d4e4ab7d6084fffd97e0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:23 +0000
Subject: [PATCH 23/24] fix: an empty dataset is normalised without reading its
 first entry

---
 source/data/dataset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0a1647f..1f7a298 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -636,6 +636,8 @@ public:
 
     Dataset<T>& min_max_normalization()
     {
+        if (_data.empty()) return *this;
+
         std::vector<T> min_vec(static_cast<std::size_t>(_feature_size));
         std::vector<T> max_vec(static_cast<std::size_t>(_feature_size));
 
-- 
2.43.0


From 1bddb7c649a2355f4b16d6d9a92a9eae546bc6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:08 +0000
Subject: [PATCH 24/24] fix: an ELU layer dumps and loads its saturation value

---
 source/dnn/activation.cpp | 18 ++++++++++++++++++
 source/dnn/activation.hpp | 23 +++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/source/dnn/activation.cpp b/source/dnn/activation.cpp
index 8509aa1..e8ae70b 100644
--- a/source/dnn/activation.cpp
+++ b/source/dnn/activation.cpp
@@ -130,6 +130,24 @@ const std::vector<NumType>& EluLayer::backward(
                     gradients.data(), size);
     return ActivationLayer::backward(_input_gradients);
 }
+
+Json EluLayer::dump() const
+{
+    Json out = ActivationLayer::dump();
+
+    Json others;
+    others["alpha"] = _alpha;
+    out[dump_fields.at(DumpFields::OTHERS)] = others;
+    return out;
+}
+
+void EluLayer::load(const Json& in)
+{
+    ActivationLayer::load(in);
+
+    _alpha = in.at(dump_fields.at(DumpFields::OTHERS))
+        .at("alpha").as<NumType>();
+}
 // =============================================================================
 
 // ================================ Softmax ====================================
diff --git a/source/dnn/activation.hpp b/source/dnn/activation.hpp
index fe73ccb..a49cf7e 100644
--- a/source/dnn/activation.hpp
+++ b/source/dnn/activation.hpp
@@ -143,6 +143,29 @@ public:
         const std::vector<NumType>& inputs) override;
     const std::vector<NumType>& backward(
         const std::vector<NumType>& gradients) override;
+
+    /**
+     * \brief Save the layer infos to disk.
+     * \return Json Layer dump.
+     * The Json dictionary result have the following fields:
+     * {
+     *   "type": "Elu",
+     *   "name": <string>,
+     *   "input_shape": [ [<size_t>, <size_t>, <size_t>], ... ],
+     *   "output_shape": [ [<size_t>, <size_t>, <size_t>], ... ],
+     *   "others": {
+     *     "alpha": <double>
+     *   }
+     * }
+     */
+    [[nodiscard]] Json dump() const override;
+
+    /**
+     * \brief Load the layer infos from disk.
+     * \param in const Json& Json to read.
+     */
+    void load(const Json& in) override;
+
 private:
     NumType _alpha;
 };
-- 
2.43.0

