From 65e3467f6a29d4d831d148194433c12b5b80f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 01/19] fix: gather vertex element bounds from the element's
 own offset

The bounds pass read every element at the start of the vertex, so elements not
at offset 0 of their input stream got the bounds of a different element.
---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From a4267a98a79b6cecae65b923185092526a8a1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 02/19] fix: drop only the duplicate vertex when copying
 vertices between index buffers

The outer list of vertex streams was resized instead of the stream's data, which
corrupted the converter when a strip or fan was split at a repeated vertex.
---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..3177cc2 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -243,7 +243,7 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 		assert(insertPair.first->index < ref.index);
 		// Remove the added vertex data.
 		for (std::size_t i = 0; i < vertices.size(); ++i)
-			vertices.resize(vertices[i].size() - vertexFormat[i].stride());
+			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
 		return insertPair.first->index;
 	}
 
-- 
2.43.0


From ad5da9a15ad7132863d91497fccb34042e3b40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 03/19] fix: keep the order of the last two vertices when a
 triangle strip is split

Splitting after an even number of strip indices swapped the two vertices carried
into the next index buffer, which flipped the winding of the next triangle and
gave the following one the wrong vertices.
---
 lib/src/Converter.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 3177cc2..ae76126 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -363,21 +363,11 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			}
 			else
 			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
+				// Continue the strip with its last two vertices, in order.
+				for (std::uint32_t k = indexCount - 2; k < indexCount; ++k)
 				{
 					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
+						baseVertex, k, prevBaseVertex);
 				}
 				curIndexCount += 2;
 			}
-- 
2.43.0


From 616f8d166e499b074b80cdbc8fe9017e7339a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 04/19] fix: reject a vertex stream whose count differs from an
 earlier empty stream

A first stream with no vertices or indices didn't count when later streams were
compared with it, so convert() read past the end of its index data.
---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index ae76126..f2c9c7a 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -506,7 +506,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if ((m_indexCount > 0 || !m_vertexStreams.empty()) && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
-- 
2.43.0


From 46ff3ae1440d9f099ca9124ffb6a035cac09df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 05/19] fix: refuse vertex streams on an invalid converter

Adding a stream to a PatchList converter that was rejected for having no patch
points divided by zero.
---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index f2c9c7a..093889d 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -498,6 +498,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From 5fa559d5ba79704ebea7d8d9bb6a484880e2a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 06/19] fix: saturate 64-bit integer elements

The limits of 64-bit integers round up when converted to double, so values at or
above the maximum were clamped to a value that overflowed the conversion back.
---
 lib/src/VertexValue.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..0903c0d 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -220,8 +220,13 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
-	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
-		static_cast<double>(maxVal))));
+	// The limits of 64-bit types may be rounded out of range when converted to double, so don't cast
+	// them back to integers.
+	if (value <= static_cast<double>(minVal))
+		return minVal;
+	if (value >= static_cast<double>(maxVal))
+		return maxVal;
+	return static_cast<T>(std::round(value));
 }
 
 inline void packIntegers(std::uint8_t* data, const double* values, unsigned int count)
-- 
2.43.0


From 047d7cfd52375c11deef50d780f1828dda040011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 07/19] fix: don't lose the bounds so far when a vertex value
 is NaN

std::min() and std::max() return the first parameter when unordered, so a NaN
replaced the bounds and the next value started them over.
---
 lib/include/VFC/VertexValue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index cca79cc..ccc35d2 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,8 +117,9 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
-			minVal.m_values[i] = std::min(m_values[i], minVal.m_values[i]);
-			maxVal.m_values[i] = std::max(m_values[i], maxVal.m_values[i]);
+			// Order of the parameters ignores NaN values.
+			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
+			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
 	}
 
-- 
2.43.0


From b5b27f90db2850edd9e39337f2327d42d6fa8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 08/19] fix: handle the full range of Z10Y11X11_UFloat values

Values that were too small or too large for a normalized 10 or 11-bit float
wrapped around to unrelated values, components weren't masked when unpacked so a
zero decoded based on the next component, and infinity and NaN decoded to -1.
---
 lib/src/VertexValue.cpp | 55 +++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 0903c0d..55e0022 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -289,6 +289,48 @@ inline void packHalfFloatValues(std::uint16_t* data, const double* values, unsig
 	std::memcpy(data, alignedData, sizeof(std::uint16_t)*count);
 }
 
+// Unsigned floats with a 5-bit exponent, as used by Z10Y11X11_UFloat. GLM doesn't handle values
+// outside of the range for normalized values or mask off the other components when unpacking.
+inline std::uint32_t packUnsignedFloat(double value, int mantissaBits)
+{
+	const std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | (infinity - 1);
+	else if (std::isinf(value) && value > 0)
+		return infinity;
+	else if (value <= 0)
+		return 0;
+	else if (value >= 65536.0)
+		return infinity - 1;
+
+	int exponent;
+	double fraction = std::frexp(value, &exponent);
+	// Convert from [0.5, 1) fraction to [1, 2) with the exponent bias.
+	exponent += 14;
+	if (exponent <= 0)
+		return static_cast<std::uint32_t>(std::ldexp(value, 14 + mantissaBits));
+
+	auto mantissa = static_cast<std::uint32_t>(std::ldexp(fraction, mantissaBits + 1)) -
+		(1U << mantissaBits);
+	return (static_cast<std::uint32_t>(exponent) << mantissaBits) | mantissa;
+}
+
+inline double unpackUnsignedFloat(std::uint32_t data, int mantissaBits)
+{
+	std::uint32_t exponent = (data >> mantissaBits) & 0x1F;
+	std::uint32_t mantissa = data & ((1U << mantissaBits) - 1);
+	if (exponent == 0x1F)
+	{
+		return mantissa ? std::numeric_limits<double>::quiet_NaN() :
+			std::numeric_limits<double>::infinity();
+	}
+	else if (exponent == 0)
+		return std::ldexp(static_cast<double>(mantissa), -14 - mantissaBits);
+
+	return std::ldexp(static_cast<double>(mantissa + (1U << mantissaBits)),
+		static_cast<int>(exponent) - 15 - mantissaBits);
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -750,10 +792,9 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF2x11_1x10(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				m_values[0] = unpackUnsignedFloat(dataValue, 6);
+				m_values[1] = unpackUnsignedFloat(dataValue >> 11, 6);
+				m_values[2] = unpackUnsignedFloat(dataValue >> 22, 5);
 				m_values[3] = 1;
 				return true;
 			}
@@ -1210,9 +1251,9 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::Z10Y11X11_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF2x11_1x10(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packUnsignedFloat(m_values[0], 6) |
+					(packUnsignedFloat(m_values[1], 6) << 11) |
+					(packUnsignedFloat(m_values[2], 5) << 22);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 200c6883c38c4d7570bafde6aa607e3c4090ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 09/19] fix: use the whole range of E5Z9Y9X9_UFloat values

GLM clamps to 32768, half of the largest value of the format (65408), so larger
values were stored as 32768.
---
 lib/src/VertexValue.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 55e0022..449059b 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -331,6 +331,34 @@ inline double unpackUnsignedFloat(std::uint32_t data, int mantissaBits)
 		static_cast<int>(exponent) - 15 - mantissaBits);
 }
 
+// Follows the algorithm in EXT_texture_shared_exponent. GLM clamps to half of the maximum value.
+inline std::uint32_t packSharedExponent(const double* values)
+{
+	constexpr double maxSharedValue = 65408.0;
+	double clampedValues[3];
+	for (unsigned int i = 0; i < 3; ++i)
+		clampedValues[i] = values[i] > 0.0 ? std::min(values[i], maxSharedValue) : 0.0;
+
+	double maxValue = std::max(clampedValues[0], std::max(clampedValues[1], clampedValues[2]));
+	int exponent = 0;
+	if (maxValue > 0.0)
+	{
+		std::frexp(maxValue, &exponent);
+		exponent = std::max(exponent + 15, 0);
+	}
+
+	if (std::floor(std::ldexp(maxValue, 24 - exponent) + 0.5) >= 512.0)
+		++exponent;
+
+	std::uint32_t packedValue = static_cast<std::uint32_t>(exponent) << 27;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		packedValue |= static_cast<std::uint32_t>(
+			std::floor(std::ldexp(clampedValues[i], 24 - exponent) + 0.5)) << (i*9);
+	}
+	return packedValue;
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -1263,9 +1291,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::E5Z9Y9X9_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF3x9_E1x5(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packSharedExponent(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 282fcd078ec76ec1871cbfd43c4df7d84ac3df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 10/19] fix: keep the index data strings alive until the result
 is written

Moving a short string invalidates the pointer from c_str(), so the indexData of
small index buffers or short output paths was empty or garbage.
---
 tool/main.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..f07ed99 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +329,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +352,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From 385b12c2091f0020e435055130dcadcd13421c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 11/19] fix: report an error when vertex bounds can't be
 written as JSON

Infinite bounds stopped the JSON writer part way, so truncated JSON was printed
with a successful exit code.
---
 tool/ResultFile.cpp |  4 +++-
 tool/main.cpp       | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..5ee0ab1 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -111,6 +111,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 
 	rapidjson::StringBuffer buffer;
 	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
-	document.Accept(writer);
+	// Fails for values that can't be represented in JSON, such as infinite bounds.
+	if (!document.Accept(writer))
+		return "";
 	return buffer.GetString();
 }
diff --git a/tool/main.cpp b/tool/main.cpp
index f07ed99..2929d6f 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -358,8 +358,14 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		}
 	}
 
-	return resultFile(converter.getVertexFormat(), bounds, vertexData, converter.getVertexCount(),
-		converter.getIndexType(), indexFileData);
+	std::string result = resultFile(converter.getVertexFormat(), bounds, vertexData,
+		converter.getVertexCount(), converter.getIndexType(), indexFileData);
+	if (result.empty())
+	{
+		std::fprintf(stderr,
+			"error: Couldn't write the result. Vertex values must have finite bounds.\n");
+	}
+	return result;
 }
 
 int main(int argc, const char** argv)
-- 
2.43.0


From 137191e2feb58d91c0ac273cff5fec06d4633538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 12/19] fix: report output that couldn't be written

Data files and the result on stdout were left in their buffers when checking for
errors, so a full disk lost the output with a successful exit code.
---
 tool/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 2929d6f..851c888 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,7 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	stream.flush();
 	return stream.good();
 }
 
@@ -448,6 +449,10 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write the result.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From 5e9e191943b7e1f48374c918604af36c44fe6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 13/19] fix: report an error when an input file can't be read

Reading from a directory threw an exception from the stream buffer iterators,
which aborted the tool.
---
 tool/ConfigFile.cpp | 16 +++++++++++++++-
 tool/main.cpp       |  8 ++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..f86cba2 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -555,7 +555,21 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	// Stream functions set the error state when failing to read, such as for a directory, while
+	// stream buffer iterators let the exception through.
+	std::string json;
+	char buffer[4096];
+	while (stream.read(buffer, sizeof(buffer)) || stream.gcount() > 0)
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	if (stream.bad())
+	{
+		std::string message = "error: Couldn't read config file '";
+		message += fileName;
+		message += "'.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
diff --git a/tool/main.cpp b/tool/main.cpp
index 851c888..b276df2 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,12 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Stream functions set the error state when failing to read, such as for a directory, while
+		// stream buffer iterators let the exception through.
+		char buffer[4096];
+		while (stream.read(buffer, sizeof(buffer)) || stream.gcount() > 0)
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		if (!stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From e5dd56c772dda259736d49c1dfff2506949ff3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 14/19] fix: parse configuration files without recursion

Deeply nested JSON overflowed the stack and crashed the tool.
---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index f86cba2..d7f21fa 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -578,7 +578,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 {
 	assert(errorFunction);
 	rapidjson::Document document;
-	if (document.Parse(json).HasParseError())
+	// Parse iteratively so nested values in the input can't overflow the stack.
+	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
 		std::string message = errorMessageStart(json, fileName, document.GetErrorOffset());
 		message += getErrorString(document.GetParseError());
-- 
2.43.0


From beb5751fd541f1fbf3758f090e86a9bca1b5a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 15/19] fix: report infinite bounds when all values of a
 component are infinite

---
 lib/include/VFC/VertexValue.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index ccc35d2..2d5e82b 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,6 +117,13 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
+			// The initial bounds are replaced by the first value, which may be infinite.
+			if (minVal.m_values[i] > maxVal.m_values[i] && m_values[i] == m_values[i])
+			{
+				minVal.m_values[i] = maxVal.m_values[i] = m_values[i];
+				continue;
+			}
+
 			// Order of the parameters ignores NaN values.
 			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
 			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
-- 
2.43.0


From 4814ca394b2c10e3a59578cd8888bb0ff572301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 16/19] fix: refuse unknown element types for 16-bit layouts

---
 lib/src/VertexFormat.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index f8492fb..d916940 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -327,7 +327,17 @@ bool isElementValid(ElementLayout layout, ElementType type)
 		case ElementLayout::X16Y16:
 		case ElementLayout::X16Y16Z16:
 		case ElementLayout::X16Y16Z16W16:
-			return type != ElementType::Invalid;
+			switch (type)
+			{
+				case ElementType::UNorm:
+				case ElementType::SNorm:
+				case ElementType::UInt:
+				case ElementType::SInt:
+				case ElementType::Float:
+					return true;
+				default:
+					return false;
+			}
 		case ElementLayout::X32:
 		case ElementLayout::X32Y32:
 		case ElementLayout::X32Y32Z32:
-- 
2.43.0


From c07f25cfa56700a7e4ee4f4976c8fcac9c54d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 17/19] fix: refuse configurations with null characters

---
 tool/ConfigFile.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index d7f21fa..2ce40ae 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -570,6 +570,16 @@ bool ConfigFile::load(std::istream& stream, const char* fileName,
 		return false;
 	}
 
+	// Parsing would ignore anything after a null character.
+	std::size_t nullPos = json.find('\0');
+	if (nullPos != std::string::npos)
+	{
+		std::string message = errorMessageStart(json.c_str(), fileName, nullPos);
+		message += "Invalid null character.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
-- 
2.43.0


From a0c9ad03222c567bd44f2614845be94f08a8502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 18/19] fix: forget the transforms of a previously loaded
 configuration

---
 tool/ConfigFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 2ce40ae..d5efee2 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -637,6 +637,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 	if (m_vertexStreams.empty())
 		return false;
 
+	// Forget the transforms of a previously loaded configuration.
+	m_transforms.clear();
 	auto vertexTransformIt = document.FindMember("vertexTransforms");
 	if (vertexTransformIt != document.MemberEnd() &&
 		!readVertexTransforms(m_transforms, vertexTransformIt->value, fileName, errorFunction))
-- 
2.43.0


From d1e0222e2321514d08e2277df9eda850d818f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 19/19] fix: forget the patch points of a previously loaded
 configuration

---
 tool/ConfigFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index d5efee2..ae511b7 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -344,6 +344,8 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 		return false;
 	}
 
+	// Forget the patch points of a previously loaded configuration.
+	outPatchPoints = 0;
 	const char* primitiveTypeStr = primitiveTypeIt->value.GetString();
 	outPrimitiveType = vfc::primitiveTypeFromName(primitiveTypeStr);
 	if (outPrimitiveType == vfc::PrimitiveType::Invalid)
-- 
2.43.0

