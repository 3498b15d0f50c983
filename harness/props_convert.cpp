// Converter properties C01 to C12.
#include "mesh.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>

using namespace mesh;
using pbt::Context;
using pbt::Source;

namespace
{

bool normalized(ElementType type)
{
	return type == ElementType::UNorm || type == ElementType::SNorm;
}

void begin(const Case& testCase, Context& context)
{
	context.digest(testCase.digest());
	if (context.wantText)
		context.describe(testCase.text());
}

void checkNoMessages(const Result& result, Context& context)
{
	if (!result.messages.empty())
		context.fail("a successful conversion reported: " + result.messages[0]);
}

// ------------------------------------------------------------------------------------------------- C01, C02

void runLists(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.strips = false;
	gen.bigOneIn = 400;
	gen.empty = true;
	gen.transforms = source.chance(1, 4);
	Case testCase = generate(source, gen);
	begin(testCase, context);
	Result result = convert(testCase);
	checkConverted(testCase, result, context);
	checkVertices(testCase, result, context);
	checkLists(testCase, result, context);
	classify(testCase, result, context);
	if (testCase.count >= 2*testCase.primitiveStride())
		context.nontrivial();
}

pbt::Register c01({"C01",
	"Random point, line, triangle and patch meshes: 1-6 elements of any valid format spread over 1-4 output and "
	"1-5 input streams, each input stream with no, 16 or 32 bit indices, shared and repeated vertices, any float "
	"bit patterns, default, tiny or huge maximum index; now and then 60000-140000 vertices. Each output corner is "
	"compared, element by element, with the value the reference decoder reads from the input and the codes the "
	"reference accepts for it. Non-trivial: at least two primitives. Distinct by the whole case.",
	&runLists});

void runStrips(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.lists = false;
	gen.bigOneIn = 400;
	gen.empty = true;
	gen.transforms = source.chance(1, 4);
	Case testCase = generate(source, gen);
	begin(testCase, context);
	Result result = convert(testCase);
	checkConverted(testCase, result, context);
	checkVertices(testCase, result, context);
	unsigned reversed = checkStrips(testCase, result, context);
	classify(testCase, result, context);
	context.labelIf(reversed > 0, "known finding strip-winding met");
	if (testCase.count >= 4 && (result.buffers.size() > 1 || testCase.hasRestart()))
		context.nontrivial();
}

// The smallest case of the known finding: five vertices, at most four per buffer... see KNOWN_FINDINGS.
Case stripWindingCase()
{
	Case testCase;
	testCase.primitive = PrimitiveType::TriangleStrip;
	testCase.indexType = IndexType::UInt16;
	testCase.defaultMax = false;
	testCase.maxIndex = 2;
	testCase.output.resize(1);
	testCase.output[0].add("position", ElementLayout::X8, ElementType::UInt);
	testCase.transforms = {{Transform::Identity}};
	Stream stream;
	stream.format = testCase.output[0];
	stream.vertexCount = 4;
	stream.data = {0, 1, 2, 3};
	testCase.streams.push_back(stream);
	testCase.count = 4;
	return testCase;
}

void knownStrips(const pbt::Options& options)
{
	std::string line;
	if (!pbt::knownFindingListed(options, "C02:strip-winding", &line))
		return;
	Context context(options);
	Case testCase = stripWindingCase();
	Result result = convert(testCase);
	try
	{
		if (result.converted && checkStrips(testCase, result, context) > 0)
			std::printf("KNOWN-FINDING: property=C02 %s\n", line.c_str());
	}
	catch (const pbt::Failure&)
	{
	}
}

void runStripsKnown(std::uint64_t, Context& context)
{
	Case testCase = stripWindingCase();
	begin(testCase, context);
	Result result = convert(testCase);
	checkConverted(testCase, result, context);
	checkStrips(testCase, result, context);
}

pbt::Property stripsProperty()
{
	pbt::Property property = {"C02",
		"Random line strips, triangle strips and fans as for C01, with primitive restarts of random density (at the "
		"start, end and in runs too, on all or some streams) and random maximum indices down to one primitive per "
		"buffer. The lines or triangles drawn by all output buffers are listed and compared one by one with those "
		"of the input, corner values and winding included. Non-trivial: at least 4 indices and a restart or a "
		"split. Distinct by the whole case.",
		&runStrips};
	property.enumCount = [](const pbt::Options&) -> std::uint64_t {return 1;};
	property.runEnum = &runStripsKnown;
	property.enumRule = "the smallest input of the known finding";
	property.known = &knownStrips;
	property.assumptions = "Restarts are recognized in the streams that supply an output element; a position is a "
		"restart if any of them has one there.\n"
		"A maximum index equal to the restart value is only combined with strips whose vertices do not reach it.";
	return property;
}

pbt::Register c02(stripsProperty());

// ------------------------------------------------------------------------------------------------------ C03

void runBuffers(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.bigOneIn = 400;
	gen.empty = true;
	Case testCase = generate(source, gen);
	begin(testCase, context);
	Result result = convert(testCase);
	checkConverted(testCase, result, context);
	checkVertices(testCase, result, context);
	checkBuffers(testCase, result, context);
	classify(testCase, result, context);
	if (result.buffers.size() > 1)
		context.nontrivial();
}

pbt::Register c03({"C03",
	"Random meshes of every primitive type as for C01 and C02. Checks each index buffer: type, base vertices from "
	"zero and increasing, every index at most the maximum in effect or a restart marker in a strip or fan, index "
	"plus base vertex inside the vertex data, the stated number of indices readable, and no buffer begun while "
	"another primitive's vertices would have fitted in the one before. Non-trivial: more than one buffer.",
	&runBuffers});

// ------------------------------------------------------------------------------------------------------ C04

// The positions that aren't restarts as a list of points without indices on either side.
Case expandCase(const Case& testCase)
{
	Case result = testCase;
	result.primitive = PrimitiveType::PointList;
	result.patchPoints = 0;
	result.indexType = IndexType::NoIndices;
	result.defaultMax = true;
	std::vector<std::uint32_t> positions;
	for (std::uint32_t i = 0; i < testCase.count; ++i)
	{
		if (!testCase.restart(i))
			positions.push_back(i);
	}
	result.count = static_cast<std::uint32_t>(positions.size());
	result.streams.clear();
	for (std::size_t s = 0; s < testCase.streams.size(); ++s)
	{
		const Stream& stream = testCase.streams[s];
		if (!testCase.streamUsed(s))
			continue;
		Stream expanded;
		expanded.format = stream.format;
		expanded.vertexCount = result.count;
		for (std::uint32_t position : positions)
		{
			auto vertex = stream.data.begin() +
				static_cast<std::ptrdiff_t>(std::size_t(stream.vertexAt(position))*stream.format.stride);
			expanded.data.insert(expanded.data.end(), vertex, vertex + stream.format.stride);
		}
		result.streams.push_back(expanded);
	}
	return result;
}

bool partialRestarts(const Case& testCase)
{
	if (!ref::isStrip(testCase.primitive))
		return false;
	for (std::uint32_t i = 0; i < testCase.count; ++i)
	{
		bool any = false, all = true;
		for (std::size_t s = 0; s < testCase.streams.size(); ++s)
		{
			if (!testCase.streamUsed(s))
				continue;
			bool restart = testCase.streams[s].restartAt(i);
			any = any || restart;
			all = all && restart;
		}
		if (any && !all)
			return true;
	}
	return false;
}

// Vertices of a strip's, fan's or list's output in mesh order, restarts and what a split repeats left out.
bool verticesInOrder(const Case& testCase, const Result& result, std::vector<std::uint32_t>& vertices)
{
	if (testCase.indexType == IndexType::NoIndices)
	{
		for (std::uint32_t i = 0; i < result.vertexCount; ++i)
			vertices.push_back(i);
		return true;
	}
	if (ref::isStrip(testCase.primitive) && result.buffers.size() > 1)
		return false;
	for (const Buffer& buffer : result.buffers)
	{
		for (std::uint32_t index : buffer.indices)
		{
			if (!ref::isStrip(testCase.primitive) || index != ref::restartValue(testCase.indexType))
				vertices.push_back(static_cast<std::uint32_t>(buffer.baseVertex + index));
		}
	}
	return true;
}

void runSharing(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.bigOneIn = 400;
	gen.transforms = source.chance(1, 4);
	Case testCase = generate(source, gen);
	begin(testCase, context);
	Result result = convert(testCase);
	checkConverted(testCase, result, context);
	checkVertices(testCase, result, context);
	checkSharing(testCase, result, context);

	// Different vertices stay different: each position refers to exactly the bytes it gets on its own.
	bool partial = partialRestarts(testCase);
	if (!partial)
	{
		Case expanded = expandCase(testCase);
		Result separate = convert(expanded);
		checkConverted(expanded, separate, context);
		checkVertices(expanded, separate, context);
		std::vector<std::uint32_t> vertices;
		if (verticesInOrder(testCase, result, vertices))
		{
			PBT_REQUIRE(context, vertices.size() == expanded.count, "%zu vertex references instead of %u",
				vertices.size(), expanded.count);
			for (std::uint32_t i = 0; i < expanded.count; ++i)
			{
				for (std::size_t o = 0; o < testCase.output.size(); ++o)
				{
					std::size_t stride = testCase.output[o].stride;
					PBT_REQUIRE(context, vertices[i] < result.vertexCount, "vertex out of range");
					PBT_REQUIRE(context, std::memcmp(result.vertices[o].data() + vertices[i]*stride,
						separate.vertices[o].data() + i*stride, stride) == 0,
						"reference %u shares a vertex with other bytes in output stream %zu: %s instead of %s", i, o,
						ref::hex(result.vertices[o].data() + vertices[i]*stride, stride).c_str(),
						ref::hex(separate.vertices[o].data() + i*stride, stride).c_str());
				}
			}
		}
		else
		{
			// The bytes of each buffer are among those of the separate vertices, and the other way round.
			std::set<Bytes> a, b;
			auto collectAll = [&](const Result& from, std::set<Bytes>& to)
			{
				for (std::uint32_t v = 0; v < from.vertexCount; ++v)
				{
					Bytes all;
					for (std::size_t o = 0; o < testCase.output.size(); ++o)
					{
						std::size_t stride = testCase.output[o].stride;
						auto data = from.vertices[o].begin() + static_cast<std::ptrdiff_t>(v*stride);
						all.insert(all.end(), data, data + static_cast<std::ptrdiff_t>(stride));
					}
					to.insert(all);
				}
			};
			collectAll(result, a);
			collectAll(separate, b);
			PBT_REQUIRE(context, a == b, "the distinct vertices differ from those of the unindexed conversion");
		}
	}
	classify(testCase, result, context);
	context.labelIf(partial, "restarts on some streams only");
	if (testCase.indexType == IndexType::NoIndices ? testCase.count > 1 : result.vertexCount < testCase.count)
		context.nontrivial();
}

pbt::Register c04({"C04",
	"Random meshes as for C01 and C02 with many equal and nearly equal vertices (equal in some elements or streams "
	"only). No vertex may occur twice within one buffer, all output streams together, and every reference must "
	"name exactly the bytes that the same vertex gets when the mesh is converted as unindexed points. "
	"Non-trivial: vertices were shared, or an unindexed result of several vertices.",
	&runSharing});

// ------------------------------------------------------------------------------------------------------ C05

Stream subset(const Stream& stream, const std::vector<std::size_t>& elements)
{
	Stream result;
	for (std::size_t e : elements)
	{
		const Element& element = stream.format.elements[e];
		result.format.add(element.name, element.layout, element.type);
	}
	result.vertexCount = stream.vertexCount;
	result.indexType = stream.indexType;
	result.indices = stream.indices;
	for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
	{
		for (std::size_t e : elements)
		{
			const Element& element = stream.format.elements[e];
			auto data = stream.data.begin() +
				static_cast<std::ptrdiff_t>(std::size_t(v)*stream.format.stride + element.offset);
			result.data.insert(result.data.end(), data,
				data + static_cast<std::ptrdiff_t>(ref::layoutInfo(element.layout).size));
		}
	}
	return result;
}

// Whether position i has no vertex: restarts only mean something in strips.
bool noVertex(const Case& testCase, const Stream& stream, std::uint32_t i)
{
	return ref::isStrip(testCase.primitive) && stream.restartAt(i);
}

const char* splitStream(Source& source, Case& testCase)
{
	std::vector<std::size_t> candidates;
	for (std::size_t i = 0; i < testCase.streams.size(); ++i)
	{
		if (testCase.streams[i].format.elements.size() >= 2)
			candidates.push_back(i);
	}
	if (candidates.empty())
		return nullptr;
	std::size_t index = source.pick(candidates);
	Stream stream = testCase.streams[index];
	std::vector<std::size_t> a, b;
	for (std::size_t e = 0; e < stream.format.elements.size(); ++e)
		(source.flip() ? a : b).push_back(e);
	if (a.empty())
	{
		a.push_back(b.back());
		b.pop_back();
	}
	else if (b.empty())
	{
		b.push_back(a.back());
		a.pop_back();
	}
	testCase.streams[index] = subset(stream, a);
	testCase.streams.insert(testCase.streams.begin() + static_cast<std::ptrdiff_t>(index + 1), subset(stream, b));
	return "stream split";
}

const char* mergeStreams(Source& source, Case& testCase)
{
	if (testCase.streams.size() < 2)
		return nullptr;
	std::size_t a = source.below(testCase.streams.size());
	std::size_t b = source.below(testCase.streams.size() - 1);
	if (b >= a)
		++b;
	const Stream& first = testCase.streams[a];
	const Stream& second = testCase.streams[b];
	for (const Element& element : second.format.elements)
	{
		if (first.format.find(element.name) >= 0)
			return nullptr;
	}
	Stream merged;
	for (const Element& element : first.format.elements)
		merged.format.add(element.name, element.layout, element.type);
	for (const Element& element : second.format.elements)
		merged.format.add(element.name, element.layout, element.type);
	merged.indexType = IndexType::UInt32;
	std::map<std::pair<std::uint32_t, std::uint32_t>, std::uint32_t> pairs;
	for (std::uint32_t i = 0; i < testCase.count; ++i)
	{
		if (noVertex(testCase, first, i) != noVertex(testCase, second, i))
			return nullptr;
		if (noVertex(testCase, first, i))
		{
			merged.indices.push_back(0xFFFFFFFFU);
			continue;
		}
		auto key = std::make_pair(first.vertexAt(i), second.vertexAt(i));
		auto found = pairs.find(key);
		if (found == pairs.end())
		{
			found = pairs.emplace(key, merged.vertexCount++).first;
			auto dataA = first.data.begin() + static_cast<std::ptrdiff_t>(std::size_t(key.first)*first.format.stride);
			auto dataB = second.data.begin() +
				static_cast<std::ptrdiff_t>(std::size_t(key.second)*second.format.stride);
			merged.data.insert(merged.data.end(), dataA, dataA + first.format.stride);
			merged.data.insert(merged.data.end(), dataB, dataB + second.format.stride);
		}
		merged.indices.push_back(found->second);
	}
	testCase.streams[a] = merged;
	testCase.streams.erase(testCase.streams.begin() + static_cast<std::ptrdiff_t>(b));
	return "streams merged";
}

const char* addUnusedElement(Source& source, Case& testCase)
{
	std::size_t index = source.below(testCase.streams.size());
	Stream& stream = testCase.streams[index];
	for (const char* name : {"unused element", "positioN", "zz"})
	{
		if (stream.format.find(name) >= 0)
			continue;
		auto e = source.pick(ref::validElements());
		Format format;
		std::size_t at = source.below(stream.format.elements.size() + 1);
		for (std::size_t i = 0; i <= stream.format.elements.size(); ++i)
		{
			if (i == at)
				format.add(name, e.first, e.second);
			if (i < stream.format.elements.size())
			{
				const Element& element = stream.format.elements[i];
				format.add(element.name, element.layout, element.type);
			}
		}
		Bytes data;
		std::uint64_t filler = source.bits64();
		for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
		{
			auto vertex = stream.data.begin() + static_cast<std::ptrdiff_t>(std::size_t(v)*stream.format.stride);
			std::uint32_t offset = format.elements[at].offset;
			data.insert(data.end(), vertex, vertex + offset);
			for (unsigned i = 0; i < ref::layoutInfo(e.first).size; ++i)
				data.push_back(static_cast<std::uint8_t>(filler = pbt::mix64(filler)));
			data.insert(data.end(), vertex + offset, vertex + stream.format.stride);
		}
		stream.format = format;
		stream.data = data;
		return "unused element added";
	}
	return nullptr;
}

const char* addUnusedStream(Source& source, Case& testCase)
{
	Stream stream;
	auto e = source.pick(ref::validElements());
	stream.format.add("unused stream", e.first, e.second);
	std::uint64_t filler = source.bits64();
	if (source.flip())
	{
		stream.indexType = IndexType::UInt16;
		stream.vertexCount = 1 + static_cast<std::uint32_t>(source.below(4));
		for (std::uint32_t i = 0; i < testCase.count; ++i)
			stream.indices.push_back((filler = pbt::mix64(filler)) % stream.vertexCount);
	}
	else
		stream.vertexCount = testCase.count;
	for (std::size_t i = 0; i < std::size_t(stream.vertexCount)*stream.format.stride; ++i)
		stream.data.push_back(static_cast<std::uint8_t>(filler = pbt::mix64(filler)));
	testCase.streams.insert(testCase.streams.begin() +
		static_cast<std::ptrdiff_t>(source.below(testCase.streams.size() + 1)), stream);
	return "unused stream added";
}

const char* reorderStreams(Source& source, Case& testCase)
{
	if (testCase.streams.size() < 2)
		return nullptr;
	std::size_t a = source.below(testCase.streams.size());
	std::size_t b = source.below(testCase.streams.size() - 1);
	if (b >= a)
		++b;
	std::swap(testCase.streams[a], testCase.streams[b]);
	return "streams added in another order";
}

const char* renumber(Source& source, Case& testCase)
{
	std::size_t index = source.below(testCase.streams.size());
	Stream& stream = testCase.streams[index];
	if (stream.indexType == IndexType::NoIndices || stream.vertexCount == 0)
		return nullptr;
	// New places for the old vertices, with gaps nobody refers to.
	std::uint32_t extra = static_cast<std::uint32_t>(source.below(4));
	if (stream.vertexCount > 60000)
		extra = 0;
	std::vector<std::uint32_t> places;
	for (std::uint32_t i = 0; i < stream.vertexCount + extra; ++i)
		places.push_back(i);
	std::uint64_t state = source.bits64();
	for (std::size_t i = places.size(); i > 1; --i)
		std::swap(places[i - 1], places[(state = pbt::mix64(state)) % i]);
	Bytes data(places.size()*stream.format.stride);
	for (std::uint8_t& byte : data)
		byte = static_cast<std::uint8_t>(state = pbt::mix64(state));
	for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
	{
		std::memcpy(data.data() + std::size_t(places[v])*stream.format.stride,
			stream.data.data() + std::size_t(v)*stream.format.stride, stream.format.stride);
	}
	for (std::uint32_t i = 0; i < stream.indices.size(); ++i)
	{
		if (!noVertex(testCase, stream, i))
			stream.indices[i] = places[stream.indices[i]];
	}
	stream.data = data;
	stream.vertexCount += extra;
	return "vertices renumbered";
}

const char* changeWidth(Source& source, Case& testCase)
{
	std::size_t index = source.below(testCase.streams.size());
	Stream& stream = testCase.streams[index];
	if (stream.indexType == IndexType::NoIndices || stream.vertexCount > 65535)
		return nullptr;
	IndexType to = stream.indexType == IndexType::UInt16 ? IndexType::UInt32 : IndexType::UInt16;
	for (std::uint32_t i = 0; i < stream.indices.size(); ++i)
	{
		if (noVertex(testCase, stream, i))
			stream.indices[i] = ref::restartValue(to);
	}
	stream.indexType = to;
	return "index width changed";
}

const char* removeIndices(Source& source, Case& testCase)
{
	std::size_t index = source.below(testCase.streams.size());
	Stream& stream = testCase.streams[index];
	if (stream.indexType == IndexType::NoIndices)
		return nullptr;
	Stream repeated;
	repeated.format = stream.format;
	repeated.vertexCount = testCase.count;
	for (std::uint32_t i = 0; i < testCase.count; ++i)
	{
		if (noVertex(testCase, stream, i))
			return nullptr;
		auto data = stream.data.begin() +
			static_cast<std::ptrdiff_t>(std::size_t(stream.vertexAt(i))*stream.format.stride);
		repeated.data.insert(repeated.data.end(), data, data + stream.format.stride);
	}
	stream = repeated;
	return "indices replaced by repeated vertices";
}

const char* addIndices(Source& source, Case& testCase)
{
	std::size_t index = source.below(testCase.streams.size());
	Stream& stream = testCase.streams[index];
	if (stream.indexType != IndexType::NoIndices)
		return nullptr;
	stream.indexType = testCase.count > 65535 || source.flip() ? IndexType::UInt32 : IndexType::UInt16;
	for (std::uint32_t i = 0; i < testCase.count; ++i)
		stream.indices.push_back(i);
	return "indices added";
}

const char* regroupOutput(Source& source, Case& testCase)
{
	std::vector<std::pair<Element, Transform>> all;
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
			all.emplace_back(testCase.output[i].elements[j], testCase.transforms[i][j]);
	}
	for (std::size_t i = all.size(); i > 1; --i)
		std::swap(all[i - 1], all[i - 1 - source.below(i)]);
	std::size_t streams = 1 + source.below(all.size());
	testCase.output.assign(streams, Format());
	testCase.transforms.assign(streams, {});
	for (std::size_t i = 0; i < all.size(); ++i)
	{
		std::size_t stream = i < streams ? i : source.below(streams);
		testCase.output[stream].add(all[i].first.name, all[i].first.layout, all[i].first.type);
		testCase.transforms[stream].push_back(all[i].second);
	}
	return "output regrouped";
}

void runArrangement(Source& source, Context& context)
{
	Gen gen;
	gen.bigOneIn = 400;
	gen.restartOnAllStreams = true;
	gen.transforms = source.chance(1, 2);
	Case testCase = generate(source, gen);
	Case changed = testCase;
	std::string steps;
	unsigned stepCount = 1 + static_cast<unsigned>(source.below(5));
	std::vector<const char*> done;
	for (unsigned i = 0; i < stepCount; ++i)
	{
		static const char* (*const mutations[])(Source&, Case&) = {&splitStream, &mergeStreams, &reorderStreams,
			&addUnusedElement, &addUnusedStream, &renumber, &changeWidth, &removeIndices, &addIndices,
			&regroupOutput};
		const char* what = source.pick(mutations)(source, changed);
		if (what)
		{
			done.push_back(what);
			steps += std::string(what) + "; ";
		}
	}
	context.digest(testCase.digest());
	context.digest(changed.digest());
	if (context.wantText)
		context.describe(testCase.text() + "\nchanged (" + steps + ") to:\n" + changed.text());

	Result a = convert(testCase);
	checkConverted(testCase, a, context);
	checkVertices(testCase, a, context);
	Result b = convert(changed);
	checkConverted(changed, b, context);
	checkVertices(changed, b, context);
	PBT_REQUIRE(context, a.vertexCount == b.vertexCount, "%u and %u vertices", a.vertexCount, b.vertexCount);
	PBT_REQUIRE(context, a.buffers.size() == b.buffers.size(), "%zu and %zu index buffers", a.buffers.size(),
		b.buffers.size());
	for (std::size_t i = 0; i < a.buffers.size(); ++i)
	{
		PBT_REQUIRE(context, a.buffers[i].baseVertex == b.buffers[i].baseVertex, "base vertices of buffer %zu differ",
			i);
		PBT_REQUIRE(context, a.buffers[i].indices == b.buffers[i].indices, "indices of buffer %zu differ", i);
	}
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			const Element& element = testCase.output[i].elements[j];
			for (std::size_t k = 0; k < changed.output.size(); ++k)
			{
				int found = changed.output[k].find(element.name);
				if (found < 0)
					continue;
				const Element& other = changed.output[k].elements[static_cast<std::size_t>(found)];
				unsigned size = ref::layoutInfo(element.layout).size;
				for (std::uint32_t v = 0; v < a.vertexCount; ++v)
				{
					context.checked();
					const std::uint8_t* first = a.vertices[i].data() + std::size_t(v)*testCase.output[i].stride +
						element.offset;
					const std::uint8_t* second = b.vertices[k].data() + std::size_t(v)*changed.output[k].stride +
						other.offset;
					PBT_REQUIRE(context, std::memcmp(first, second, size) == 0,
						"element '%s' of vertex %u: %s and %s", element.name.c_str(), v,
						ref::hex(first, size).c_str(), ref::hex(second, size).c_str());
				}
				const ElementBounds& boundsA = a.bounds[i][j];
				const ElementBounds& boundsB = b.bounds[k][static_cast<std::size_t>(found)];
				for (unsigned c = 0; c < 4; ++c)
				{
					PBT_REQUIRE(context, ref::sameDouble(boundsA.min[c], boundsB.min[c]) &&
						ref::sameDouble(boundsA.max[c], boundsB.max[c]), "bounds of element '%s' differ",
						element.name.c_str());
				}
			}
		}
	}
	for (const char* what : done)
		context.label(what);
	classify(testCase, a, context);
	if (!done.empty() && testCase.count > 1)
		context.nontrivial();
}

pbt::Register c05({"C05",
	"A random mesh as for C01 and C02 (restarts on all streams) and a rearranged one, made by 1-5 random steps: "
	"split or merge input streams, add unused elements or streams, add streams in another order, renumber "
	"vertices (with gaps), change the index width, replace indices by repeated vertices or add indices, regroup "
	"the output elements. Indices, base vertices, each element's bytes and bounds must be equal. Non-trivial: at "
	"least one step applied and two indices.",
	&runArrangement, nullptr, nullptr, nullptr, nullptr, false,
	"Restarts are present on all converted streams, so that every arrangement marks the same positions."});

// ------------------------------------------------------------------------------------------------------ C06

// Whether an element of an output stream is the first of that name.
bool firstOf(const Case& testCase, std::size_t stream, const std::string& name)
{
	for (std::size_t i = 0; i < stream; ++i)
	{
		if (testCase.output[i].find(name) >= 0)
			return false;
	}
	return true;
}

void runTransforms(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.transforms = true;
	gen.nonFinite = source.flip();
	gen.maxPrimitives = 10;
	Case testCase = generate(source, gen);
	begin(testCase, context);

	// The same transforms, set in various ways.
	std::vector<std::string> messages;
	Inputs inputs(testCase);
	vfc::Converter converter = makeConverter(testCase, messages);
	std::vector<std::vector<Transform>> current;
	for (const Format& format : testCase.output)
		current.emplace_back(format.elements.size(), Transform::Identity);
	auto set = [&](std::size_t i, std::size_t j, Transform transform)
	{
		const std::string& name = testCase.output[i].elements[j].name;
		switch (firstOf(testCase, i, name) ? source.below(3) : 0)
		{
			case 0:
				converter.setElementTransform(i, j, transform);
				break;
			case 1:
				PBT_REQUIRE(context, converter.setElementTransform(name, transform), "element '%s' not found",
					name.c_str());
				break;
			default:
				PBT_REQUIRE(context, converter.setElementTransform(name.c_str(), transform),
					"element '%s' not found", name.c_str());
				break;
		}
		current[i][j] = transform;
	};
	auto readBack = [&]()
	{
		for (std::size_t i = 0; i < current.size(); ++i)
		{
			for (std::size_t j = 0; j < current[i].size(); ++j)
			{
				const std::string& name = testCase.output[i].elements[j].name;
				context.checked();
				PBT_REQUIRE(context, converter.getElementTransform(i, j) == current[i][j],
					"transform of '%s' reads back wrong by position", name.c_str());
				if (!firstOf(testCase, i, name))
					continue;
				PBT_REQUIRE(context, converter.getElementTransform(name) == current[i][j] &&
					converter.getElementTransform(name.c_str()) == current[i][j],
					"transform of '%s' reads back wrong by name", name.c_str());
			}
		}
	};
	readBack();

	bool overwritten = false;
	std::vector<std::pair<std::size_t, std::size_t>> after;
	for (std::size_t i = 0; i < current.size(); ++i)
	{
		for (std::size_t j = 0; j < current[i].size(); ++j)
		{
			if (source.chance(1, 3))
			{
				set(i, j, static_cast<Transform>(source.below(4)));
				overwritten = overwritten || current[i][j] != testCase.transforms[i][j];
			}
			if (source.chance(1, 2))
				after.emplace_back(i, j);
			else
				set(i, j, testCase.transforms[i][j]);
		}
	}
	if (source.flip())
	{
		PBT_REQUIRE(context, !converter.setElementTransform("no such element", Transform::Bounds),
			"a transform was set for an unknown element");
		PBT_REQUIRE(context, converter.getElementTransform("no such element") == Transform::Identity,
			"an unknown element has a transform");
	}
	readBack();
	for (std::size_t s = 0; s < testCase.streams.size(); ++s)
	{
		PBT_REQUIRE(context, addStream(converter, testCase, inputs, s), "a valid stream was refused");
		if (!after.empty() && source.flip())
		{
			set(after.back().first, after.back().second,
				testCase.transforms[after.back().first][after.back().second]);
			after.pop_back();
		}
	}
	for (const auto& a : after)
		set(a.first, a.second, testCase.transforms[a.first][a.second]);
	readBack();
	Result result;
	result.added = true;
	result.converted = converter.convert();
	result.messages = messages;
	collect(result, converter, testCase);
	checkConverted(testCase, result, context);
	readBack();

	Result plain = convert(testCase);
	checkConverted(testCase, plain, context);
	PBT_REQUIRE(context, result == plain, "how the transforms were set makes a difference");
	checkVertices(testCase, result, context);
	checkPrimitives(testCase, result, context);

	bool transformed = false;
	for (std::size_t i = 0; i < current.size(); ++i)
	{
		for (std::size_t j = 0; j < current[i].size(); ++j)
		{
			if (current[i][j] == Transform::Identity)
				continue;
			transformed = true;
			bool norm = normalized(testCase.output[i].elements[j].type);
			context.label(current[i][j] == Transform::Bounds ?
				(norm ? "bounds transform, normalized" : "bounds transform, not normalized") :
				current[i][j] == Transform::UNormToSNorm ? "UNormToSNorm" : "SNormToUNorm");
		}
	}
	context.labelIf(overwritten, "transform set twice");
	if (transformed && testCase.count > 1)
		context.nontrivial();
}

pbt::Register c06({"C06",
	"Random meshes with random transforms on every element, set by position, name or C string, before, between or "
	"after adding the streams, some set to something else first. Transforms read back at every stage, the result "
	"equals that of setting them plainly, and each output value is compared with the reference value mapped by "
	"the formula of its transform. Non-trivial: an element with a transform other than identity, two indices.",
	&runTransforms});

// ------------------------------------------------------------------------------------------------------ C07

void runBounds(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.bigOneIn = 400;
	gen.transforms = source.chance(1, 3);
	Case testCase = generate(source, gen);
	begin(testCase, context);
	std::vector<std::string> messages;
	Inputs inputs(testCase);
	vfc::Converter converter = makeConverter(testCase, messages);
	setTransforms(converter, testCase);
	Result result;
	result.added = true;
	for (std::size_t i = 0; i < testCase.streams.size(); ++i)
		result.added = addStream(converter, testCase, inputs, i) && result.added;
	result.converted = converter.convert();
	result.messages = messages;
	checkConverted(testCase, result, context);
	collect(result, converter, testCase);
	checkBounds(testCase, result, context);
	bool unreferenced = false, narrow = false;
	for (const Stream& stream : testCase.streams)
	{
		std::set<std::uint32_t> used(stream.indices.begin(), stream.indices.end());
		unreferenced = unreferenced || (stream.indexType != IndexType::NoIndices && used.size() < stream.vertexCount);
		for (const Element& element : stream.format.elements)
			narrow = narrow || ref::layoutInfo(element.layout).components < 4;
	}
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			const std::string& name = testCase.output[i].elements[j].name;
			vfc::VertexValue low, high, low2, high2;
			PBT_REQUIRE(context, converter.getVertexElementBounds(low, high, name) &&
				converter.getVertexElementBounds(low2, high2, name.c_str()), "no bounds for '%s'", name.c_str());
			for (unsigned k = 0; k < 4; ++k)
			{
				PBT_REQUIRE(context, ref::sameDouble(low[k], result.bounds[i][j].min[k]) &&
					ref::sameDouble(high[k], result.bounds[i][j].max[k]) && ref::sameDouble(low2[k], low[k]) &&
					ref::sameDouble(high2[k], high[k]), "bounds of '%s' differ by name and position", name.c_str());
			}
		}
	}
	vfc::VertexValue low(1, 2, 3, 4), high(5, 6, 7, 8);
	PBT_REQUIRE(context, !converter.getVertexElementBounds(low, high, "no such element") &&
		low == vfc::VertexValue(1, 2, 3, 4) && high == vfc::VertexValue(5, 6, 7, 8),
		"bounds of an unknown element");

	// Bounds grown value by value.
	std::vector<vfc::VertexValue> values;
	unsigned count = source.small(8);
	ElementBounds expected = {};
	bool known[4] = {};
	for (unsigned i = 0; i < count; ++i)
	{
		std::uint8_t data[32];
		generateElement(source, gen, ElementLayout::X64Y64Z64W64, ElementType::Float, data);
		double value[4];
		ref::decode(ElementLayout::X64Y64Z64W64, ElementType::Float, data, value);
		values.emplace_back(value[0], value[1], value[2], value[3]);
		for (unsigned k = 0; k < 4; ++k)
		{
			if (std::isnan(value[k]))
				continue;
			expected.min[k] = known[k] ? std::min(expected.min[k], value[k]) : value[k];
			expected.max[k] = known[k] ? std::max(expected.max[k], value[k]) : value[k];
			known[k] = true;
		}
	}
	for (unsigned order = 0; order < 3; ++order)
	{
		vfc::VertexValue growLow = vfc::VertexValue::initialBoundsMin;
		vfc::VertexValue growHigh = vfc::VertexValue::initialBoundsMax;
		for (const vfc::VertexValue& value : values)
			value.expandBounds(growLow, growHigh);
		for (unsigned k = 0; k < 4; ++k)
		{
			context.checked();
			PBT_REQUIRE(context, !known[k] || (growLow[k] == expected.min[k] && growHigh[k] == expected.max[k]),
				"component %u of grown bounds is [%.17g, %.17g] instead of [%.17g, %.17g]", k, growLow[k],
				growHigh[k], expected.min[k], expected.max[k]);
		}
		if (order == 0)
			std::reverse(values.begin(), values.end());
		else if (!values.empty())
		{
			std::rotate(values.begin(), values.begin() + static_cast<std::ptrdiff_t>(source.below(values.size())),
				values.end());
		}
	}

	context.labelIf(unreferenced, "vertices never referred to");
	context.labelIf(narrow, "components missing in the input");
	context.labelIf(partialRestarts(testCase), "restarts on some streams only");
	classify(testCase, result, context);
	if (testCase.count > 1)
		context.nontrivial();
}

pbt::Register c07({"C07",
	"Random meshes as for C01 and C02, with vertices never referred to, restarts, NaN and infinite values. Reported "
	"bounds, by position and by name, are compared with minimum and maximum over the reference values of the "
	"vertices referred to. Also grows bounds over random values in three orders. Non-trivial: two indices.",
	&runBounds, nullptr, nullptr, nullptr, nullptr, false,
	"Bounds of components that have only NaN values, or no values at all, are not specified.\n"
	"Where only some streams restart, values of the other streams at that position may or may not count."});

// ------------------------------------------------------------------------------------------------------ C08

double normalizedCode(ElementLayout layout, ElementType type, unsigned i, const std::uint8_t* data, double& step)
{
	double decoded[4];
	ref::decode(layout, type, data, decoded);
	step = 1/(std::pow(2.0, ref::componentBits(layout, i)) - 1);
	return type == ElementType::SNorm ? decoded[i]*0.5 + 0.5 : decoded[i];
}

void checkRestored(Context& context, ElementLayout layout, ElementType type, const std::uint8_t* data,
	const double value[4], const double low[4], const double high[4], const char* what)
{
	for (unsigned k = 0; k < ref::layoutInfo(layout).components; ++k)
	{
		context.checked();
		double range = high[k] - low[k];
		if (std::isinf(range) || std::isnan(range))
			continue;
		double step;
		double code = normalizedCode(layout, type, k, data, step);
		double restored = low[k] + code*range;
		double clamped = std::min(std::max(value[k], low[k]), high[k]);
		double magnitude = std::max(std::abs(low[k]), std::abs(high[k]));
		constexpr double epsilon = std::numeric_limits<double>::epsilon();
		// Extents up to the epsilon count as none.
		double tolerance = range*step*(0.5 + 1e-6) + magnitude*4*epsilon + (range <= epsilon ? range : 0);
		PBT_REQUIRE(context, std::abs(restored - clamped) <= tolerance,
			"%s component %u: %.17g in [%.17g, %.17g] is stored as %s and restores to %.17g", what, k, value[k],
			low[k], high[k], ref::hex(data, ref::layoutInfo(layout).size).c_str(), restored);
		if (range > epsilon)
		{
			PBT_REQUIRE(context, value[k] != low[k] || code <= epsilon, "%s component %u: the smallest value %.17g "
				"is not at the lower end of the range", what, k, value[k]);
			PBT_REQUIRE(context, value[k] != high[k] || code >= 1 - epsilon, "%s component %u: the largest value "
				"%.17g is not at the upper end of the range", what, k, value[k]);
		}
	}
}

void runRestore(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.normalizedBounds = true;
	gen.nonFinite = false;
	gen.restartOnAllStreams = true;
	gen.maxPrimitives = 12;
	Case testCase = generate(source, gen);
	begin(testCase, context);
	Result result = convert(testCase);
	checkConverted(testCase, result, context);
	checkVertices(testCase, result, context);

	std::vector<std::uint32_t> vertices;
	bool ordered = verticesInOrder(testCase, result, vertices);
	Case expanded = expandCase(testCase);
	if (!ordered)
	{
		// Which vertex belongs to which position is for C02 to say; take the unindexed conversion.
		result = convert(expanded);
		checkConverted(expanded, result, context);
		vertices.clear();
		for (std::uint32_t i = 0; i < result.vertexCount; ++i)
			vertices.push_back(i);
	}
	PBT_REQUIRE(context, vertices.size() == expanded.count, "%zu vertex references instead of %u", vertices.size(),
		expanded.count);
	Expected expected(expanded);
	bool extent = false;
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			const Element& element = testCase.output[i].elements[j];
			if (testCase.transforms[i][j] != Transform::Bounds || !normalized(element.type))
				continue;
			const ElementBounds& bounds = result.bounds[i][j];
			for (unsigned k = 0; k < ref::layoutInfo(element.layout).components; ++k)
				extent = extent || bounds.max[k] > bounds.min[k];
			for (std::uint32_t p = 0; p < expanded.count; ++p)
			{
				double value[4];
				expected.input(value, i, j, p);
				PBT_REQUIRE(context, vertices[p] < result.vertexCount, "vertex out of range");
				checkRestored(context, element.layout, element.type, result.vertices[i].data() +
					std::size_t(vertices[p])*testCase.output[i].stride + element.offset, value, bounds.min,
					bounds.max, element.name.c_str());
			}
		}
	}

	// A single value packed with given bounds.
	auto format = source.pick(ref::validElements());
	double value[4], low[4], high[4];
	for (unsigned k = 0; k < 4; ++k)
	{
		Gen finite;
		finite.nonFinite = false;
		std::uint8_t data[8];
		double* targets[] = {&value[k], &low[k], &high[k]};
		ElementLayout layout = source.flip() ? ElementLayout::X64 : ElementLayout::X32;
		for (double* target : targets)
		{
			double decoded[4];
			generateElement(source, finite, layout, ElementType::Float, data);
			ref::decode(layout, ElementType::Float, data, decoded);
			*target = decoded[0];
		}
		if (low[k] > high[k])
			std::swap(low[k], high[k]);
		switch (source.below(6))
		{
			case 0:
				high[k] = low[k];
				break;
			case 1:
				value[k] = low[k];
				break;
			case 2:
				value[k] = high[k];
				break;
			default:
				if (!std::isinf(high[k] - low[k]) && source.flip())
					value[k] = low[k] + (high[k] - low[k])*static_cast<double>(source.below(1001))/1000;
				break;
		}
	}
	vfc::VertexValue vertexValue(value[0], value[1], value[2], value[3]);
	unsigned size = ref::layoutInfo(format.first).size;
	Bytes stored(size + 16, 0xa5);
	PBT_REQUIRE(context, vertexValue.toData(stored.data() + 8, format.first, format.second,
		vfc::VertexValue(low[0], low[1], low[2], low[3]), vfc::VertexValue(high[0], high[1], high[2], high[3])),
		"packing with bounds was refused");
	for (unsigned i = 0; i < 8; ++i)
		PBT_REQUIRE(context, stored[i] == 0xa5 && stored[size + 8 + i] == 0xa5, "bytes beyond the element changed");
	if (context.wantText)
	{
		std::string text = pbt::format("\npacked directly: %s %s", ref::layoutInfo(format.first).name,
			ref::typeName(format.second));
		for (unsigned k = 0; k < 4; ++k)
			text += pbt::format(" %.17g in [%.17g, %.17g]", value[k], low[k], high[k]);
		context.description += text;
	}
	if (normalized(format.second))
	{
		for (unsigned k = 0; k < 4; ++k)
		{
			// An infinite extent can't be restored from.
			if (std::isinf(high[k] - low[k]))
				value[k] = low[k] = high[k] = 0;
		}
		checkRestored(context, format.first, format.second, stored.data() + 8, value, low, high, "directly packed");
	}
	else
	{
		Bytes plain(size, 0);
		PBT_REQUIRE(context, vertexValue.toData(plain.data(), format.first, format.second), "packing was refused");
		PBT_REQUIRE(context, std::memcmp(plain.data(), stored.data() + 8, size) == 0,
			"bounds changed how %s %s is packed", ref::layoutInfo(format.first).name, ref::typeName(format.second));
	}
	context.labelIf(extent, "element with an extent");
	classify(testCase, result, context);
	if (extent)
		context.nontrivial();
}

pbt::Register c08({"C08",
	"Random meshes of finite values whose elements mostly use the bounds transform to normalized formats. Every "
	"stored component mapped back through the reported bounds must be within half a step of the input value, and "
	"the extremes at the ends of the range. Also packs single values with random bounds (values inside, outside "
	"and at the bounds, empty bounds) into any format. Non-trivial: a component with an extent.",
	&runRestore, nullptr, nullptr, nullptr, nullptr, false,
	"Extents up to the double epsilon 2.2e-16 count as none; extents that overflow a double are skipped."});

// ------------------------------------------------------------------------------------------------------ C11

void runDeterminism(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.bigOneIn = 400;
	gen.empty = true;
	gen.transforms = source.chance(1, 3);
	Case testCase = generate(source, gen);
	begin(testCase, context);
	Result first = convert(testCase);
	checkConverted(testCase, first, context);
	checkVertices(testCase, first, context);
	if (source.flip())
	{
		Gen small;
		small.maxPrimitives = 6;
		convert(generate(source, small));
	}
	Result second = convert(testCase, static_cast<unsigned>(source.below(8)));
	checkConverted(testCase, second, context);
	PBT_REQUIRE(context, first == second, "converting the same input again gives another result");

	if (source.flip() && testCase.count > 0)
	{
		// Other contents in the same memory, with the same and with another converter.
		Case other = testCase;
		for (Stream& stream : other.streams)
		{
			stream.dataAlias = stream.indexAlias = -1;
			bool any = false;
			std::size_t stride = stream.format.stride;
			for (std::size_t v = 0; v < stream.vertexCount; ++v)
			{
				if (testCase.count > 2000 ? v % 1000 : source.below(3))
					continue;
				for (const Element& element : stream.format.elements)
					generateElement(source, gen, element.layout, element.type,
						stream.data.data() + v*stride + element.offset);
				any = true;
			}
			if (!any)
				std::rotate(stream.data.begin(), stream.data.begin() + static_cast<std::ptrdiff_t>(stride),
					stream.data.end());
		}
		for (Stream& stream : other.streams)
		{
			// Rotated indices, too.
			if (!stream.indices.empty() && source.chance(1, 3))
				std::rotate(stream.indices.begin(), stream.indices.begin() + 1, stream.indices.end());
		}
		Case own = testCase;
		for (Stream& stream : own.streams)
			stream.dataAlias = stream.indexAlias = -1;
		Inputs inputs(own);
		PBT_REQUIRE(context, convertFrom(own, inputs) == first, "converting the same input again gives another result");
		inputs.overwrite(other);
		PBT_REQUIRE(context, convertFrom(other, inputs) == convert(other),
			"what was in the same memory before changes the result");
		inputs.overwrite(own);
		PBT_REQUIRE(context, convertFrom(own, inputs) == first, "what was in the same memory in between changes the result");
		context.label("memory used again");
	}

	bool again = first.buffers.size() <= 1;
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		// An input element may be in one stream only.
		for (const Element& element : testCase.output[i].elements)
			again = again && firstOf(testCase, i, element.name);
	}
	if (again)
	{
		Case repeat = testCase;
		for (std::vector<Transform>& transforms : repeat.transforms)
			std::fill(transforms.begin(), transforms.end(), Transform::Identity);
		repeat.streams.clear();
		for (std::size_t i = 0; i < testCase.output.size(); ++i)
		{
			Stream stream;
			stream.format = testCase.output[i];
			stream.data = first.vertices[i];
			stream.vertexCount = first.vertexCount;
			stream.indexType = testCase.indexType;
			if (!first.buffers.empty())
				stream.indices = first.buffers[0].indices;
			repeat.streams.push_back(stream);
		}
		Result third = convert(repeat);
		if (context.wantText)
			context.description += "\nconverted again:\n" + repeat.text();
		checkConverted(repeat, third, context);
		third.bounds = first.bounds; // Of another input.
		for (std::size_t i = 0; i < first.vertices.size(); ++i)
		{
			PBT_REQUIRE(context, first.vertices[i] == third.vertices[i],
				"converting the result again changes output stream %zu", i);
		}
		PBT_REQUIRE(context, first == third, "converting the result again changes the indices");
	}
	context.labelIf(again, "result converted again");
	classify(testCase, first, context);
	if (testCase.count > 1)
		context.nontrivial();
}

pbt::Register c11({"C11",
	"Random meshes as for C01 and C02, converted twice from different memory (other alignment, another conversion "
	"in between): vertices, indices and bounds must be identical, and no trace may remain of what the same memory "
	"held at an earlier conversion. Results in one buffer are converted again with "
	"the output formats as input formats and must come out byte for byte. Non-trivial: two indices.",
	&runDeterminism});

} // namespace
