#include "mesh.h"

#include <sys/mman.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>

namespace mesh
{

namespace
{

constexpr double epsilon = std::numeric_limits<double>::epsilon();
constexpr double transformError = 4*epsilon;

const char* transformName(Transform transform)
{
	switch (transform)
	{
		case Transform::Identity:
			return "Identity";
		case Transform::Bounds:
			return "Bounds";
		case Transform::UNormToSNorm:
			return "UNormToSNorm";
		case Transform::SNormToUNorm:
			return "SNormToUNorm";
	}
	return "?";
}

const char* indexName(IndexType type)
{
	return type == IndexType::UInt16 ? "UInt16" : type == IndexType::UInt32 ? "UInt32" : "NoIndices";
}

bool isNormalized(ElementType type)
{
	return type == ElementType::UNorm || type == ElementType::SNorm;
}

const char* const usedNames[] = {"position", "uv", "color", "normal", "p", "Position", "a\"b", "\xc3\xa9t\xc3\xa9",
	"", "b c", "tangent", "weights"};
const char* const unusedNames[] = {"extra", "POSITION", "other", "uv ", "q", "unused", "more", "x/y"};

std::uint64_t codeOfDouble(double value)
{
	std::uint64_t code;
	std::memcpy(&code, &value, 8);
	return code;
}

std::uint64_t codeOfFloat(double value)
{
	auto f = static_cast<float>(value);
	std::uint32_t code;
	std::memcpy(&code, &f, 4);
	return code;
}

// Exact for the values used here.
std::uint64_t smallFloatCode(double value, unsigned mantissaBits, bool sign)
{
	std::uint64_t signBit = 0;
	if (std::signbit(value))
	{
		if (!sign)
			return 0;
		signBit = std::uint64_t(1) << (mantissaBits + 5);
		value = -value;
	}
	if (value == 0)
		return signBit;
	int exponent = std::max(-14, std::min(15, std::ilogb(value)));
	double mantissa = value/std::pow(2.0, exponent);
	if (mantissa < 1)
		return signBit | static_cast<std::uint64_t>(mantissa*(1 << mantissaBits));
	auto bits = static_cast<std::uint64_t>((mantissa - 1)*(1 << mantissaBits));
	bits = std::min<std::uint64_t>(bits, (1U << mantissaBits) - 1);
	return signBit | (static_cast<std::uint64_t>(exponent + 15) << mantissaBits) | bits;
}

const double typicalValues[] = {0, 1, -1, 0.5, 2, -0.5, 0.25, 3, 1.0/3, 10, -7.25, 0.75, 100, 1000.5, 1e-3, -1e-3,
	0.999, 1.001, 255, 256, -128, 32767, 65535, 1e5, -1e5, -0.0};

std::uint64_t floatCode(pbt::Source& source, const Gen& gen, unsigned bits)
{
	bool sign = bits >= 16;
	unsigned mantissa = bits == 64 ? 52 : bits == 32 ? 23 : bits == 16 ? 10 : bits - 5;
	unsigned exponentBits = bits == 64 ? 11 : bits == 32 ? 8 : 5;
	std::uint64_t all = bits == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << bits) - 1;
	std::uint64_t exponentMask = ((std::uint64_t(1) << exponentBits) - 1) << mantissa;
	std::uint64_t code = 0;
	switch (source.weighted({10, 4, 3}))
	{
		case 0:
		{
			double value = source.pick(typicalValues);
			code = bits == 64 ? codeOfDouble(value) : bits == 32 ? codeOfFloat(value) :
				smallFloatCode(value, mantissa, sign);
			break;
		}
		case 1:
			code = source.below(bits == 64 ? 0 : std::uint64_t(1) << bits);
			break;
		case 2:
		{
			std::uint64_t one = std::uint64_t(1) << mantissa;
			std::uint64_t special[] = {0, 1, one - 1, one, exponentMask - 1, exponentMask, exponentMask | 1,
				exponentMask | (one >> 1)};
			code = source.pick(special);
			if (sign && source.flip())
				code |= std::uint64_t(1) << (bits - 1);
			break;
		}
	}
	code &= all;
	if ((code & exponentMask) == exponentMask)
	{
		bool nan = (code & ((std::uint64_t(1) << mantissa) - 1)) != 0;
		if (!gen.nonFinite || (nan && !gen.nan))
			code &= ~(std::uint64_t(1) << mantissa);
	}
	return code;
}

std::uint64_t integerCode(pbt::Source& source, unsigned bits)
{
	std::uint64_t all = bits == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << bits) - 1;
	switch (source.weighted({8, 4, 3}))
	{
		case 0:
			return source.below(bits == 1 ? 2 : 4);
		case 1:
			return source.below(bits == 64 ? 0 : std::uint64_t(1) << bits);
		default:
		{
			std::uint64_t half = std::uint64_t(1) << (bits - 1);
			std::uint64_t special[] = {0, all, half - 1, half, half + 1, all - 1, all/3, 1};
			return source.pick(special) & all;
		}
	}
}

} // namespace

void generateElement(pbt::Source& source, const Gen& gen, ElementLayout layout, ElementType type,
	std::uint8_t* data)
{
	const ref::LayoutInfo& info = ref::layoutInfo(layout);
	std::memset(data, 0, info.size);
	bool isFloat = (info.kind == ref::Kind::UFloat) || (info.kind == ref::Kind::Array && type == ElementType::Float);
	unsigned codes = ref::componentCount(layout) + (info.kind == ref::Kind::SharedExp ? 1 : 0);
	for (unsigned i = 0; i < codes; ++i)
	{
		unsigned bits = ref::componentBits(layout, i);
		ref::setComponentCode(layout, i, data, isFloat ? floatCode(source, gen, bits) : integerCode(source, bits));
	}
}

void Format::add(const std::string& name, ElementLayout layout, ElementType type)
{
	elements.push_back(Element{name, layout, type, stride});
	stride += ref::layoutInfo(layout).size;
}

int Format::find(const std::string& name) const
{
	for (std::size_t i = 0; i < elements.size(); ++i)
	{
		if (elements[i].name == name)
			return static_cast<int>(i);
	}
	return -1;
}

vfc::VertexFormat Format::make() const
{
	vfc::VertexFormat format;
	for (const Element& element : elements)
	{
		if (format.appendElement(element.name, element.layout, element.type) !=
			vfc::VertexFormat::AddResult::Succeeded)
		{
			throw pbt::Failure{"valid element '" + element.name + "' wasn't accepted by the vertex format"};
		}
	}
	return format;
}

Bytes Stream::indexBytes() const
{
	unsigned size = ref::indexBytes(indexType);
	Bytes result(indices.size()*size);
	bool moved = hasGap();
	for (std::size_t i = 0; i < indices.size(); ++i)
	{
		std::uint32_t index = indices[i];
		// What is out of range stays so, and restarts are kept.
		if (moved && index >= gapAt && index < 0xFFFFFFFE)
			index += std::min(gap, 0xFFFFFFFE - index);
		for (unsigned j = 0; j < size; ++j)
			result[i*size + j] = static_cast<std::uint8_t>(index >> (8*j));
	}
	return result;
}

bool Case::hasRestart() const
{
	for (std::uint32_t i = 0; i < count; ++i)
	{
		if (restart(i))
			return true;
	}
	return false;
}

unsigned Case::primitiveStride() const
{
	return ref::isStrip(primitive) ? 1 : ref::primitiveMinimum(primitive, patchPoints);
}

std::uint32_t Case::limit() const
{
	return defaultMax ? ref::restartValue(indexType) - 1 : maxIndex;
}

bool Case::source(const std::string& name, std::size_t& stream, std::size_t& element) const
{
	for (std::size_t i = 0; i < streams.size(); ++i)
	{
		int found = streams[i].format.find(name);
		if (found >= 0)
		{
			stream = i;
			element = static_cast<std::size_t>(found);
			return true;
		}
	}
	return false;
}

bool Case::streamUsed(std::size_t stream) const
{
	for (const Format& format : output)
	{
		for (const Element& element : format.elements)
		{
			if (streams[stream].format.find(element.name) >= 0)
				return true;
		}
	}
	return false;
}

bool Case::restart(std::uint32_t i) const
{
	if (!ref::isStrip(primitive))
		return false;
	for (std::size_t s = 0; s < streams.size(); ++s)
	{
		if (streams[s].restartAt(i) && streamUsed(s))
			return true;
	}
	return false;
}

std::string Case::text() const
{
	std::string result = pbt::format("%s", ref::primitiveName(primitive));
	if (patchPoints)
		result += pbt::format("(%u)", patchPoints);
	result += pbt::format(" -> %s", indexName(indexType));
	if (indexType != IndexType::NoIndices)
		result += defaultMax ? " default max" : pbt::format(" max %u", maxIndex);
	for (std::size_t i = 0; i < output.size(); ++i)
	{
		result += pbt::format("\n out[%zu]:", i);
		for (std::size_t j = 0; j < output[i].elements.size(); ++j)
		{
			const Element& element = output[i].elements[j];
			result += pbt::format(" '%s' %s %s", element.name.c_str(), ref::layoutInfo(element.layout).name,
				ref::typeName(element.type));
			if (transforms[i][j] != Transform::Identity)
				result += std::string(" ") + transformName(transforms[i][j]);
		}
	}
	for (std::size_t i = 0; i < streams.size(); ++i)
	{
		const Stream& stream = streams[i];
		result += pbt::format("\n in[%zu]:", i);
		for (const Element& element : stream.format.elements)
		{
			result += pbt::format(" '%s' %s %s", element.name.c_str(), ref::layoutInfo(element.layout).name,
				ref::typeName(element.type));
		}
		if (stream.dataAlias >= 0)
			result += pbt::format("; data of in[%d]+%zu", stream.dataAlias, stream.dataAliasOffset);
		if (stream.indexAlias >= 0)
			result += pbt::format("; indices of in[%d]", stream.indexAlias);
		if (stream.hasGap())
			result += pbt::format("; %u vertices left out before %u", stream.gap, stream.gapAt);
		result += pbt::format("; %u vertices:", stream.vertexCount);
		for (std::uint32_t v = 0; v < stream.vertexCount && v < 40; ++v)
			result += " " + ref::hex(stream.data.data() + v*stream.format.stride, stream.format.stride);
		if (stream.vertexCount > 40)
			result += " ...";
		if (stream.indexType != IndexType::NoIndices)
		{
			result += pbt::format("; %s %zu indices:", indexName(stream.indexType), stream.indices.size());
			for (std::size_t v = 0; v < stream.indices.size() && v < 100; ++v)
			{
				result += stream.restartAt(static_cast<std::uint32_t>(v)) ? std::string(" R") :
					pbt::format(" %u", stream.indices[v]);
			}
			if (stream.indices.size() > 100)
				result += " ...";
		}
	}
	return result;
}

std::uint64_t Case::digest() const
{
	pbt::Options options;
	pbt::Context context(options);
	context.digest(static_cast<unsigned>(primitive)*1000 + patchPoints);
	context.digest(static_cast<unsigned>(indexType));
	context.digest(indexType == IndexType::NoIndices ? 0 : limit());
	for (std::size_t i = 0; i < output.size(); ++i)
	{
		for (std::size_t j = 0; j < output[i].elements.size(); ++j)
		{
			const Element& element = output[i].elements[j];
			context.digest(element.name);
			context.digest(static_cast<unsigned>(element.layout)*100 + static_cast<unsigned>(element.type));
			context.digest(static_cast<unsigned>(transforms[i][j]));
		}
		context.digest(7);
	}
	for (const Stream& stream : streams)
	{
		for (const Element& element : stream.format.elements)
		{
			context.digest(element.name);
			context.digest(static_cast<unsigned>(element.layout)*100 + static_cast<unsigned>(element.type));
		}
		context.digest(stream.data.data(), stream.data.size());
		context.digest(static_cast<unsigned>(stream.indexType));
		if (stream.hasGap())
			context.digest(stream.gap + std::uint64_t(stream.gapAt)*64);
		context.digest(stream.indices.data(), stream.indices.size()*sizeof(std::uint32_t));
	}
	return context.hash;
}

bool Result::operator==(const Result& other) const
{
	if (added != other.added || converted != other.converted || vertexCount != other.vertexCount ||
		vertices != other.vertices || buffers.size() != other.buffers.size() ||
		bounds.size() != other.bounds.size())
	{
		return false;
	}
	for (std::size_t i = 0; i < buffers.size(); ++i)
	{
		if (buffers[i].type != other.buffers[i].type || buffers[i].baseVertex != other.buffers[i].baseVertex ||
			buffers[i].indices != other.buffers[i].indices)
		{
			return false;
		}
	}
	for (std::size_t i = 0; i < bounds.size(); ++i)
	{
		if (bounds[i].size() != other.bounds[i].size())
			return false;
		for (std::size_t j = 0; j < bounds[i].size(); ++j)
		{
			for (unsigned k = 0; k < 4; ++k)
			{
				if (!ref::sameDouble(bounds[i][j].min[k], other.bounds[i][j].min[k]) ||
					!ref::sameDouble(bounds[i][j].max[k], other.bounds[i][j].max[k]))
				{
					return false;
				}
			}
		}
	}
	return true;
}

// ---------------------------------------------------------------------------------------------- generation

namespace
{

const std::pair<ElementLayout, ElementType> wideElements[] = {
	{ElementLayout::X64Y64Z64W64, ElementType::Float}, {ElementLayout::X64Y64Z64W64, ElementType::UInt},
	{ElementLayout::X32Y32Z32W32, ElementType::Float}, {ElementLayout::X64Y64Z64, ElementType::SInt},
	{ElementLayout::X32Y32Z32W32, ElementType::UInt}};

const std::pair<ElementLayout, ElementType> commonElements[] = {
	{ElementLayout::X32Y32Z32, ElementType::Float}, {ElementLayout::X32Y32, ElementType::Float},
	{ElementLayout::X8Y8Z8W8, ElementType::UNorm}, {ElementLayout::X16Y16, ElementType::Float},
	{ElementLayout::X16Y16, ElementType::UNorm}, {ElementLayout::X16Y16Z16W16, ElementType::SNorm},
	{ElementLayout::W2Z10Y10X10, ElementType::SNorm}, {ElementLayout::X32, ElementType::Float},
	{ElementLayout::X8Y8Z8W8, ElementType::UInt}, {ElementLayout::X16Y16, ElementType::SInt}};

void generateFormats(pbt::Source& source, const Gen& gen, Case& result)
{
	const auto& elements = ref::validElements();
	unsigned elementCount = 1 + source.small(gen.cli ? 4 : 5);
	bool wide = source.chance(1, 25);
	if (wide)
		elementCount = static_cast<unsigned>(source.range(6, 20));
	// Vertices of more than 64 KB.
	bool huge = source.chance(1, 3000);
	if (huge)
		elementCount = static_cast<unsigned>(source.range(2040, 2110));
	std::vector<std::string> names;
	for (unsigned i = 0; i < elementCount; ++i)
	{
		std::string name = source.pick(usedNames);
		while (std::find(names.begin(), names.end(), name) != names.end())
			name += std::to_string(i);
		names.push_back(name);
	}
	// An element that numbers the vertices makes them all different.
	bool numbered = source.chance(2, 5);
	if (numbered)
		names[source.below(names.size())] = "id";
	unsigned outputStreams = 1 + (huge ? 0 : wide && source.flip() ? static_cast<unsigned>(source.below(elementCount)) :
		source.small(std::min(elementCount - 1, 3U)));
	result.output.resize(outputStreams);
	result.transforms.resize(outputStreams);
	unsigned styleOut = source.weighted({3, 5, 2});
	for (unsigned i = 0; i < elementCount; ++i)
	{
		unsigned stream = i < outputStreams ? i : static_cast<unsigned>(source.below(outputStreams));
		auto element = elements[source.below(styleOut == 0 ? std::min<std::size_t>(elements.size(), 12) :
			elements.size())];
		if (styleOut == 2)
			element = source.pick(commonElements);
		if (huge)
			element = wideElements[0];
		else if (wide && source.flip())
			element = source.pick(wideElements);
		auto transform = Transform::Identity;
		if (names[i] == "id")
		{
			result.output[stream].add("id", ElementLayout::X16, ElementType::UInt);
			result.transforms[stream].push_back(transform);
			continue;
		}
		if (gen.normalizedBounds && source.chance(4, 5))
		{
			std::vector<std::pair<ElementLayout, ElementType>> normalized;
			for (const auto& e : elements)
			{
				if (isNormalized(e.second))
					normalized.push_back(e);
			}
			element = source.pick(normalized);
			transform = Transform::Bounds;
		}
		else if (gen.transforms)
			transform = static_cast<Transform>(source.below(4));
		result.output[stream].add(names[i], element.first, element.second);
		result.transforms[stream].push_back(transform);
	}
	if (gen.repeats && outputStreams > 1 && source.chance(1, 6))
	{
		// The same element again, converted in another way.
		const std::string& name = source.pick(names);
		for (unsigned i = 0; i < outputStreams; ++i)
		{
			if (name != "id" && result.output[i].find(name) < 0 && source.flip())
			{
				auto e = source.pick(elements);
				result.output[i].add(name, e.first, e.second);
				result.transforms[i].push_back(gen.transforms ? static_cast<Transform>(source.below(4)) :
					Transform::Identity);
			}
		}
	}

	// Input streams.
	unsigned inputStreams = 1 + source.small(std::min(elementCount, gen.maxStreams) - 1);
	if (wide && gen.maxStreams > 1 && source.chance(1, 4))
		inputStreams = 1 + static_cast<unsigned>(source.below(elementCount));
	if (huge)
		inputStreams = 1 + static_cast<unsigned>(source.below(2));
	result.streams.resize(inputStreams);
	std::vector<unsigned> order;
	for (unsigned i = 0; i < elementCount; ++i)
		order.push_back(i);
	for (unsigned i = elementCount; i > 1; --i)
		std::swap(order[i - 1], order[i - 1 - source.below(i)]);
	unsigned nextUnused = 0;
	auto addUnused = [&](Format& format)
	{
		if (!gen.unused || !source.chance(1, 6) || nextUnused >= sizeof(unusedNames)/sizeof(unusedNames[0]))
			return;
		auto e = source.pick(elements);
		format.add(unusedNames[nextUnused++], e.first, e.second);
	};
	for (unsigned i = 0; i < elementCount; ++i)
	{
		unsigned stream = i < inputStreams ? i : static_cast<unsigned>(source.below(inputStreams));
		Format& format = result.streams[stream].format;
		addUnused(format);
		const std::string& name = names[order[i]];
		const Element* out = nullptr;
		for (const Format& outFormat : result.output)
		{
			int found = outFormat.find(name);
			if (found >= 0)
				out = &outFormat.elements[static_cast<std::size_t>(found)];
		}
		switch (name == "id" || huge ? 0 : source.weighted({4, 4, 2}))
		{
			case 0:
				format.add(name, out->layout, out->type);
				break;
			case 1:
			{
				auto e = source.pick(elements);
				format.add(name, e.first, e.second);
				break;
			}
			default:
			{
				static const ElementLayout floats[] = {ElementLayout::X32Y32Z32, ElementLayout::X32,
					ElementLayout::X32Y32, ElementLayout::X32Y32Z32W32, ElementLayout::X64Y64Z64W64};
				format.add(name, source.pick(floats), ElementType::Float);
				break;
			}
		}
		addUnused(format);
	}
	if (inputStreams > 1 && !huge && source.chance(1, 8))
	{
		// Streams of the same layout.
		std::size_t to = 1 + source.below(inputStreams - 1);
		const std::vector<Element> from = result.streams[source.below(to)].format.elements;
		std::vector<Element> elements = result.streams[to].format.elements;
		Format format;
		for (std::size_t i = 0; i < elements.size(); ++i)
		{
			bool same = i < from.size() && elements[i].name != "id" && from[i].name != "id";
			format.add(elements[i].name, same ? from[i].layout : elements[i].layout,
				same ? from[i].type : elements[i].type);
		}
		result.streams[to].format = format;
	}
	if (gen.unused && source.chance(1, 8))
	{
		Stream stream;
		auto e = source.pick(elements);
		stream.format.add("stray", e.first, e.second);
		result.streams.insert(result.streams.begin() + source.below(result.streams.size() + 1), stream);
	}
}

void number(Stream& stream, std::uint32_t v)
{
	const Element& element = stream.format.elements[static_cast<std::size_t>(stream.format.find("id"))];
	std::uint8_t* data = stream.data.data() + static_cast<std::size_t>(v)*stream.format.stride + element.offset;
	data[0] = static_cast<std::uint8_t>(v);
	data[1] = static_cast<std::uint8_t>(v >> 8);
}

// Changes the lower bits of the first component, which stays finite if it was.
void varyElement(const Element& element, std::uint8_t* data, std::uint64_t change)
{
	const ref::LayoutInfo& info = ref::layoutInfo(element.layout);
	unsigned bits = ref::componentBits(element.layout, 0);
	if (info.kind == ref::Kind::UFloat || info.kind == ref::Kind::SharedExp)
		return;
	std::uint64_t code = ref::componentCode(element.layout, 0, data);
	if (element.type == ElementType::Float)
	{
		unsigned mantissa = bits == 64 ? 52 : bits == 32 ? 23 : 10;
		std::uint64_t exponents = (std::uint64_t(1) << (bits - 1 - mantissa)) - 1;
		if ((code >> mantissa & exponents) == exponents)
			return;
		bits = mantissa;
	}
	code ^= change & ((std::uint64_t(1) << std::min(bits, 14U)) - 1);
	ref::setComponentCode(element.layout, 0, data, code);
}

// Many vertices, from a few different ones.
void generateMany(pbt::Source& source, const Gen& gen, Stream& stream)
{
	auto kinds = static_cast<std::uint32_t>(source.range(2, stream.vertexCount > 5000 ? 8 : 100));
	std::uint32_t stride = stream.format.stride;
	Bytes some(kinds*stride);
	for (std::uint32_t v = 0; v < kinds; ++v)
	{
		for (const Element& element : stream.format.elements)
		{
			if (element.name != "id")
				generateElement(source, gen, element.layout, element.type, some.data() + v*stride + element.offset);
		}
	}
	std::uint64_t seed = source.bits64();
	// Whole vertices, elements of different ones, or many different values.
	unsigned style = source.weighted({3, 2, 2});
	for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
	{
		std::uint8_t* vertex = stream.data.data() + static_cast<std::size_t>(v)*stride;
		std::memcpy(vertex, some.data() + pbt::mix64(seed ^ v) % kinds*std::size_t(stride), stride);
		for (std::size_t e = 0; style > 0 && e < std::min<std::size_t>(stream.format.elements.size(), 16); ++e)
		{
			const Element& element = stream.format.elements[e];
			if (element.name == "id")
				continue;
			std::uint64_t bits = pbt::mix64(seed ^ v ^ (std::uint64_t(e + 1) << 40));
			std::memcpy(vertex + element.offset, some.data() + bits % kinds*std::size_t(stride) + element.offset,
				ref::layoutInfo(element.layout).size);
			if (style == 2)
				varyElement(element, vertex + element.offset, bits >> 20);
		}
		if (stream.format.find("id") >= 0)
			number(stream, v);
	}
}

// Zeros of both signs, and ones.
void generateSimple(pbt::Source& source, const Element& element, std::uint8_t* data)
{
	const ref::LayoutInfo& info = ref::layoutInfo(element.layout);
	std::memset(data, 0, info.size);
	bool isFloat = (info.kind == ref::Kind::UFloat) || (info.kind == ref::Kind::Array && element.type == ElementType::Float);
	for (unsigned i = 0; i < ref::componentCount(element.layout); ++i)
	{
		unsigned bits = ref::componentBits(element.layout, i);
		std::uint64_t one = 1;
		if (isFloat)
		{
			one = bits == 64 ? codeOfDouble(1) : bits == 32 ? codeOfFloat(1) :
				smallFloatCode(1, bits == 16 ? 10 : bits - 5, bits == 16);
		}
		std::uint64_t codes[] = {0, one, std::uint64_t(1) << (bits - 1)};
		if (isFloat && bits < 16)
			codes[2] = 1;
		ref::setComponentCode(element.layout, i, data, source.pick(codes));
	}
}

void generateVertices(pbt::Source& source, const Gen& gen, Stream& stream)
{
	std::uint32_t stride = stream.format.stride;
	stream.data.assign(static_cast<std::size_t>(stream.vertexCount)*stride, 0);
	// Few different values per element make equal vertices likely.
	unsigned style = gen.collisions ? source.weighted({4, 2, 2, 2, 1, 1}) : 0;
	if (style == 4 && (!gen.nan || !gen.nonFinite))
		style = 5;
	if (stride > 10000)
	{
		std::uint64_t state = source.bits64();
		for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
		{
			for (const Element& element : stream.format.elements)
			{
				state = pbt::mix64(state);
				if (element.name == "id")
					number(stream, v);
				else if (element.layout == ElementLayout::X64Y64Z64W64)
				{
					for (unsigned i = 0; i < 4; ++i)
						ref::setComponentCode(element.layout, i, stream.data.data() + std::size_t(v)*stride + element.offset,
							codeOfDouble(typicalValues[(state >> 8*i) % (sizeof(typicalValues)/sizeof(double))]));
				}
			}
		}
		return;
	}
	if (stream.vertexCount > 300)
	{
		generateMany(source, gen, stream);
		return;
	}
	for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
	{
		std::uint8_t* vertex = stream.data.data() + static_cast<std::size_t>(v)*stride;
		if (style == 1 && v > 0 && source.chance(1, 3))
		{
			std::memcpy(vertex, stream.data.data() + source.below(v)*stride, stride);
			continue;
		}
		if (style == 3 && v > 0 && source.chance(4, 5))
		{
			// Another vertex but for one element.
			std::memcpy(vertex, stream.data.data() + source.below(v)*stride, stride);
			const Element& element = source.pick(stream.format.elements);
			if (element.name != "id")
				generateElement(source, gen, element.layout, element.type, vertex + element.offset);
			if (stream.format.find("id") >= 0)
				number(stream, v);
			continue;
		}
		if (style == 4 && v > 0 && source.chance(4, 5))
		{
			// Another vertex but for one bit.
			std::memcpy(vertex, stream.data.data() + source.below(v)*stride, stride);
			vertex[source.below(stride)] ^= static_cast<std::uint8_t>(1U << source.below(8));
			if (stream.format.find("id") >= 0)
				number(stream, v);
			continue;
		}
		for (const Element& element : stream.format.elements)
		{
			if (element.name == "id")
				number(stream, v);
			else if (style == 5)
				generateSimple(source, element, vertex + element.offset);
			else if (style == 2 && v > 0 && source.chance(2, 3))
			{
				std::memcpy(vertex + element.offset, stream.data.data() + source.below(v)*stride + element.offset,
					ref::layoutInfo(element.layout).size);
			}
			else
				generateElement(source, gen, element.layout, element.type, vertex + element.offset);
		}
	}
}

// Tens of thousands of vertices, derived from a few choices.
void generateBig(pbt::Source& source, const Gen& gen, Case& result)
{
	std::uint64_t seed = source.bits64();
	std::uint32_t distinct = static_cast<std::uint32_t>(source.range(65530, 65545));
	if (source.flip())
		distinct = static_cast<std::uint32_t>(source.range(60000, source.chance(1, 4) ? 300000 : 140000));
	bool twoStreams = source.flip();
	bool strips = gen.strips && (!gen.lists || source.flip());
	if (strips)
	{
		PrimitiveType types[] = {PrimitiveType::LineStrip, PrimitiveType::TriangleStrip,
			PrimitiveType::TriangleFan};
		result.primitive = source.pick(types);
	}
	else
	{
		PrimitiveType types[] = {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::TriangleList,
			PrimitiveType::PatchList};
		result.primitive = source.pick(types);
		if (result.primitive == PrimitiveType::PatchList)
			result.patchPoints = static_cast<unsigned>(source.range(1, source.flip() ? 4 : 70));
	}
	Format format;
	format.add("position", ElementLayout::X32, ElementType::UInt);
	result.output.push_back(format);
	result.transforms.push_back({Transform::Identity});
	if (twoStreams)
	{
		Format format2;
		format2.add("uv", ElementLayout::X8Y8, ElementType::UInt);
		result.output.push_back(format2);
		result.transforms.push_back({Transform::Identity});
	}
	if (gen.indexed == 0 || (gen.indexed < 0 && source.chance(1, 6)))
		result.indexType = IndexType::NoIndices;
	else
		result.indexType = source.weighted({4, 1}) == 0 ? IndexType::UInt16 : IndexType::UInt32;
	result.defaultMax = result.indexType == IndexType::NoIndices || !gen.splits || source.weighted({2, 1}) == 0;
	if (!result.defaultMax)
	{
		std::uint32_t options[] = {65534, 65533, 65535, 40000, 65000};
		result.maxIndex = source.pick(options);
		if (result.indexType == IndexType::UInt32 && source.flip())
			result.maxIndex = static_cast<std::uint32_t>(source.range(2000, 100000));
		if (strips && result.maxIndex == 65535)
			result.maxIndex = 65534;
	}
	std::uint32_t stride = result.primitiveStride();
	result.count = (distinct + 20 + static_cast<std::uint32_t>(source.below(2000)))/stride*stride;
	Stream stream;
	stream.format = format;
	bool indexed = source.flip();
	// More 16-bit indices than they can tell apart, of few or of as many vertices as possible.
	bool narrow = indexed && source.chance(1, 2);
	if (narrow)
	{
		distinct = strips ? 65535 : 65536;
		if (source.flip())
			distinct = static_cast<std::uint32_t>(source.range(3, 5000));
	}
	unsigned restartEvery = strips && indexed && result.indexType != IndexType::NoIndices && source.flip() ?
		static_cast<unsigned>(source.range(3, 30000)) : 0;
	stream.indexType = narrow ? IndexType::UInt16 : indexed ? IndexType::UInt32 : IndexType::NoIndices;
	stream.vertexCount = indexed ? distinct : result.count;
	for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
	{
		std::uint32_t value = v*(static_cast<std::uint32_t>(seed) | 1);
		for (unsigned j = 0; j < 4; ++j)
			stream.data.push_back(static_cast<std::uint8_t>(value >> (8*j)));
	}
	if (indexed)
	{
		std::uint64_t state = seed;
		unsigned jump = static_cast<unsigned>(source.below(3));
		std::uint32_t next = 0;
		for (std::uint32_t i = 0; i < result.count; ++i)
		{
			state = pbt::mix64(state);
			if (restartEvery && i % restartEvery == restartEvery - 1)
				stream.indices.push_back(ref::restartValue(stream.indexType));
			else if (jump && next > 0 && state % 7 < jump)
				stream.indices.push_back(static_cast<std::uint32_t>((state >> 16) % next));
			else
			{
				stream.indices.push_back(next);
				if (next + 1 < distinct)
					++next;
				else if (narrow)
					next = 0;
			}
		}
	}
	result.streams.push_back(stream);
	if (twoStreams)
	{
		Stream second;
		second.format.add("uv", ElementLayout::X8Y8, ElementType::UInt);
		second.vertexCount = result.count;
		for (std::uint32_t v = 0; v < result.count; ++v)
		{
			std::uint64_t state = pbt::mix64(seed ^ v);
			second.data.push_back(static_cast<std::uint8_t>(state % 3 == 0));
			second.data.push_back(static_cast<std::uint8_t>(v & 1));
		}
		result.streams.push_back(second);
	}
}

// Puts some vertices very far away.
void generateGap(pbt::Source& source, Stream& stream)
{
	stream.gapAt = static_cast<std::uint32_t>(source.below(stream.vertexCount));
	std::uint64_t target = 0;
	switch (source.below(3))
	{
		case 0:
			// By the offset in bytes.
			target = (std::uint64_t(1) << source.range(31, 35))/stream.format.stride;
			break;
		case 1:
			// By the index.
			target = std::uint64_t(1) << source.range(16, 31);
			break;
		default:
			target = 0xFFFFFFFE - stream.vertexCount - source.small(3);
			break;
	}
	std::uint64_t most = 0xFFFFFFFE - stream.vertexCount;
	target = source.flip() ? target : target + source.below(10*stream.vertexCount) - std::min<std::uint64_t>(target, stream.gapAt);
	stream.gap = static_cast<std::uint32_t>(std::min(target, most));
}

// An earlier stream whose vertices look the same, by whatever names.
int twinOf(const Case& testCase, std::size_t s)
{
	const Format& format = testCase.streams[s].format;
	for (std::size_t other = s; other-- > 0;)
	{
		const Format& from = testCase.streams[other].format;
		if (from.elements.size() == format.elements.size() &&
			std::equal(format.elements.begin(), format.elements.end(), from.elements.begin(),
				[](const Element& a, const Element& b) {return a.layout == b.layout && a.type == b.type;}))
		{
			return static_cast<int>(other);
		}
	}
	return -1;
}

bool allFinite(const Stream& stream)
{
	for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
	{
		for (const Element& element : stream.format.elements)
		{
			double value[4];
			ref::decode(element.layout, element.type,
				stream.data.data() + std::size_t(v)*stream.format.stride + element.offset, value);
			for (double component : value)
			{
				if (!std::isfinite(component))
					return false;
			}
		}
	}
	return true;
}

// Makes a stream a view of an earlier stream's memory: the same vertices, or the elements between others.
bool viewData(pbt::Source& source, const Gen& gen, Case& testCase, std::size_t s)
{
	Stream& stream = testCase.streams[s];
	std::size_t other = source.below(s);
	bool whole = false;
	int twin = twinOf(testCase, s);
	if (twin >= 0 && source.chance(3, 4))
	{
		other = static_cast<std::size_t>(twin);
		whole = true;
	}
	const Stream& from = testCase.streams[other];
	std::size_t stride = stream.format.stride;
	std::size_t offsets[] = {0, from.format.stride, stride, static_cast<std::size_t>(source.below(16))};
	std::size_t offset = whole ? 0 : source.pick(offsets);
	std::size_t size = from.data.size();
	std::uint32_t oldCount = stream.vertexCount;
	if (whole && stream.indexType != IndexType::NoIndices && stream.indices.empty())
		stream.vertexCount = from.vertexCount;
	if (offset + stride > size || stream.vertexCount == 0)
		return false;
	std::size_t fits = (size - offset)/stride;
	if (fits < stream.vertexCount)
	{
		if (stream.indexType == IndexType::NoIndices || !stream.indices.empty())
			return false;
		stream.vertexCount = static_cast<std::uint32_t>(fits);
	}
	auto begin = from.data.begin() + static_cast<std::ptrdiff_t>(offset);
	stream.data.assign(begin, begin + static_cast<std::ptrdiff_t>(stream.vertexCount*stride));
	if ((!gen.nan || !gen.nonFinite) && !allFinite(stream))
	{
		stream.vertexCount = oldCount;
		return false;
	}
	stream.dataAlias = static_cast<int>(other);
	stream.dataAliasOffset = offset;
	return true;
}

} // namespace

Case generate(pbt::Source& source, const Gen& gen)
{
	Case result;
	if (gen.bigOneIn > 0 && source.chance(1, gen.bigOneIn))
	{
		generateBig(source, gen, result);
		return result;
	}

	static const PrimitiveType lists[] = {PrimitiveType::PointList, PrimitiveType::LineList,
		PrimitiveType::TriangleList, PrimitiveType::PatchList};
	static const PrimitiveType strips[] = {PrimitiveType::LineStrip, PrimitiveType::TriangleStrip,
		PrimitiveType::TriangleFan};
	bool strip = gen.strips && (!gen.lists || source.flip());
	result.primitive = strip ? source.pick(strips) : source.pick(lists);
	if (result.primitive == PrimitiveType::PatchList)
	{
		static const unsigned sizes[] = {16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1025};
		result.patchPoints = source.chance(1, 10) ? source.pick(sizes) : static_cast<unsigned>(source.range(1, 6));
	}
	else if (!gen.cli && source.chance(1, 8))
		result.patchPoints = static_cast<unsigned>(source.below(5));

	generateFormats(source, gen, result);

	if (gen.indexed != 0 && (gen.indexed == 1 || source.chance(4, 5)))
		result.indexType = source.flip() ? IndexType::UInt32 : IndexType::UInt16;
	unsigned minimum = ref::primitiveMinimum(result.primitive, result.patchPoints);
	if (result.indexType != IndexType::NoIndices && gen.splits)
	{
		switch (source.weighted({3, 8, 1, 1}))
		{
			case 0:
				break;
			case 1:
				result.defaultMax = false;
				result.maxIndex = minimum - 1 + source.small(strip ? 6 : 12);
				break;
			case 2:
				result.defaultMax = false;
				result.maxIndex = ref::restartValue(result.indexType) - static_cast<std::uint32_t>(source.below(3));
				break;
			default:
				result.defaultMax = false;
				result.maxIndex = static_cast<std::uint32_t>(source.range(minimum - 1, std::max(300U, minimum)));
				break;
		}
	}

	unsigned stride = result.primitiveStride();
	unsigned primitives = source.small(gen.maxPrimitives);
	// Hundreds to thousands of primitives, derived from a few choices.
	bool huge = result.output[0].stride > 10000;
	bool medium = !huge && source.chance(1, gen.cli ? 60 : 40);
	std::uint64_t state = 0;
	if (medium)
	{
		state = source.bits64();
		unsigned most = std::max(2U, (source.flip() ? 600 : 3000)/stride);
		primitives = static_cast<unsigned>(source.range(most/8, most));
		// Room for much of it.
		if (!result.defaultMax && source.flip())
			result.maxIndex = static_cast<std::uint32_t>(source.range(minimum - 1, minimum - 1 + primitives*stride/2));
	}
	else if (stride > 6 || huge)
		primitives = source.small(huge ? 2 : 5);
	else if (source.chance(1, 12))
		primitives = static_cast<unsigned>(source.below(3*gen.maxPrimitives));
	else if (source.chance(1, 60))
		primitives = static_cast<unsigned>(source.below(15*gen.maxPrimitives));
	if (!gen.empty)
		++primitives;
	result.count = primitives*stride;
	if (strip && (primitives > 0 || !gen.empty))
		result.count = minimum - 1 + primitives;

	// Restart positions.
	std::vector<char> restarts(result.count, 0);
	bool anyRestart = false;
	if (strip && result.indexType != IndexType::NoIndices && source.chance(2, 3))
	{
		unsigned one = static_cast<unsigned>(source.range(2, 16));
		if (medium && source.flip())
			one = static_cast<unsigned>(source.range(16, 500));
		for (char& r : restarts)
		{
			if (medium)
			{
				state = pbt::mix64(state);
				r = (state >> 32) % one == 0;
			}
			else
				r = source.chance(1, one);
			anyRestart = anyRestart || r;
		}
	}

	for (std::size_t s = 0; s < result.streams.size(); ++s)
	{
		Stream& stream = result.streams[s];
		// A stream without indices can't have restarts.
		switch (source.weighted({gen.restartOnAllStreams && anyRestart ? 0U : 3U, 4, 4}))
		{
			case 0:
				stream.indexType = IndexType::NoIndices;
				break;
			case 1:
				stream.indexType = IndexType::UInt16;
				break;
			default:
				stream.indexType = IndexType::UInt32;
				break;
		}
		bool view = s > 0 && stream.format.find("id") < 0 &&
			source.chance(twinOf(result, s) >= 0 ? 4 : 1, 10);
		if (stream.indexType == IndexType::NoIndices)
		{
			stream.vertexCount = result.count;
			if (view && viewData(source, gen, result, s))
				continue;
		}
		else
		{
			if (s > 0 && source.chance(1, 8))
			{
				std::size_t other = source.below(s);
				const Stream& from = result.streams[other];
				if (from.indexType == stream.indexType && !from.indices.empty())
				{
					stream.indices = from.indices;
					stream.vertexCount = from.vertexCount;
					stream.indexAlias = static_cast<int>(other);
					if (!view || !viewData(source, gen, result, s))
						generateVertices(source, gen, stream);
					continue;
				}
			}
			unsigned most = std::max(1U, std::min(result.count + 4, medium ? 4000U : 300U));
			stream.vertexCount = 1 + (source.flip() ? static_cast<unsigned>(source.below(most)) : source.small(most));
			// Around the number of vertices 16-bit indices can name.
			if (huge)
				stream.vertexCount = std::min(stream.vertexCount, 4U);
			bool many = !view && !huge && source.chance(1, gen.cli ? 600 : 150);
			if (many)
				stream.vertexCount = static_cast<std::uint32_t>(source.range(65533, 65538));
			else if (view)
				view = viewData(source, gen, result, s);
			// New vertices mostly, as in real meshes, or anything.
			unsigned style = source.weighted({3, 3});
			std::uint32_t next = 0;
			bool carries = gen.restartOnAllStreams || source.chance(4, 5);
			for (std::uint32_t i = 0; i < result.count; ++i)
			{
				std::uint32_t index;
				state = pbt::mix64(state);
				if (style == 0 && !(medium ? (state >> 40) % 5 == 0 : source.chance(1, 3)))
				{
					index = next;
					next = (next + 1) % stream.vertexCount;
				}
				else if (medium)
					index = static_cast<std::uint32_t>((state & 0xFFFFFFFF) % stream.vertexCount);
				else
					index = static_cast<std::uint32_t>(source.below(stream.vertexCount));
				if (many)
				{
					if (source.flip())
						index = stream.vertexCount - 1 - static_cast<std::uint32_t>(source.below(4));
					if (strip && index == ref::restartValue(stream.indexType) && !restarts[i])
						index = 0;
					if (stream.indexType == IndexType::UInt16)
						index = std::min<std::uint32_t>(index, strip && !restarts[i] ? 0xFFFE : 0xFFFF);
				}
				if (restarts[i] && carries)
					index = ref::restartValue(stream.indexType);
				stream.indices.push_back(index);
			}
		}
		if (!view || stream.dataAlias < 0)
			generateVertices(source, gen, stream);
		if (gen.gaps && !gen.cli && !huge && stream.indexType == IndexType::UInt32 && stream.vertexCount > 0 &&
			source.chance(1, 12))
		{
			generateGap(source, stream);
		}
	}
	if (gen.cli && !anyRestart && source.chance(1, 25))
	{
		// A stream whose vertices are its own indices.
		for (Stream& stream : result.streams)
		{
			Bytes bytes = stream.indexBytes();
			bool aliased = stream.indexAlias >= 0;
			for (const Stream& other : result.streams)
				aliased = aliased || (other.indexAlias >= 0 && &result.streams[static_cast<std::size_t>(other.indexAlias)] == &stream);
			if (aliased || bytes.empty() || bytes.size() % stream.format.stride != 0 || stream.format.find("id") >= 0)
				continue;
			auto vertexCount = static_cast<std::uint32_t>(bytes.size()/stream.format.stride);
			for (std::uint32_t& index : stream.indices)
				index %= std::min(vertexCount, 0x7000U);
			stream.vertexCount = vertexCount;
			stream.data = stream.indexBytes();
		}
	}
	return result;
}

// -------------------------------------------------------------------------------------------- running it

Inputs::Inputs(const Case& testCase, unsigned misalignment)
{
	std::vector<Bytes> indexBytes;
	for (const Stream& stream : testCase.streams)
	{
		std::size_t size = stream.data.size();
		const std::uint8_t* view = nullptr;
		if (stream.dataAlias >= 0 && size > 0 && static_cast<std::size_t>(stream.dataAlias) < m_vertices.size())
		{
			auto other = static_cast<std::size_t>(stream.dataAlias);
			const Bytes& bytes = testCase.streams[other].data;
			if (!stream.hasGap() && !testCase.streams[other].hasGap() && stream.dataAliasOffset + size <= bytes.size() &&
				std::memcmp(bytes.data() + stream.dataAliasOffset, stream.data.data(), size) == 0)
			{
				view = m_vertices[other] + stream.dataAliasOffset;
			}
		}
		if (!view && stream.hasGap())
			view = mapVertices(stream, misalignment);
		if (!view)
		{
			m_memory.emplace_back(new std::uint8_t[size + misalignment]);
			if (size > 0)
				std::memcpy(m_memory.back().get() + misalignment, stream.data.data(), size);
			view = m_memory.back().get() + misalignment;
		}
		m_vertices.push_back(view);

		indexBytes.push_back(stream.indexBytes());
		const Bytes& indices = indexBytes.back();
		view = nullptr;
		if (stream.indexAlias >= 0 && static_cast<std::size_t>(stream.indexAlias) < m_indices.size() &&
			!indices.empty() && indexBytes[static_cast<std::size_t>(stream.indexAlias)] == indices)
		{
			view = m_indices[static_cast<std::size_t>(stream.indexAlias)];
		}
		if (!view)
		{
			m_memory.emplace_back(new std::uint8_t[indices.size()]);
			if (!indices.empty())
				std::memcpy(m_memory.back().get(), indices.data(), indices.size());
			view = m_memory.back().get();
		}
		m_indices.push_back(view);
	}
}

Inputs::~Inputs()
{
	for (const auto& mapped : m_mapped)
		munmap(mapped.first, mapped.second);
}

namespace
{

// Calls with each part of the vertex data handed over: where it is there and in the stream's data, and its size.
template <typename Call>
void forParts(const Stream& stream, Call call)
{
	std::size_t first = stream.data.size();
	if (stream.hasGap())
	{
		std::size_t stride = stream.format.stride;
		first = std::min<std::size_t>(first, stream.gapAt*stride);
		call(first + stream.gap*stride, first, stream.data.size() - first);
	}
	if (first > 0)
		call(0, 0, first);
}

} // namespace

const std::uint8_t* Inputs::mapVertices(const Stream& stream, unsigned misalignment)
{
	constexpr std::size_t page = 4096;
	std::size_t size = stream.data.size() + static_cast<std::size_t>(stream.gap)*stream.format.stride + misalignment;
	size = (size + page - 1)/page*page;
	void* memory = mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (memory == MAP_FAILED)
		throw pbt::Failure{pbt::format("harness: no %zu bytes of address space", size)};
	m_mapped.emplace_back(memory, size);
	auto base = static_cast<std::uint8_t*>(memory) + misalignment;
	forParts(stream, [&](std::size_t to, std::size_t from, std::size_t length)
	{
		std::size_t begin = (to + misalignment)/page*page;
		std::size_t end = (to + misalignment + length + page - 1)/page*page;
		if (mprotect(static_cast<std::uint8_t*>(memory) + begin, end - begin, PROT_READ | PROT_WRITE) != 0)
			throw pbt::Failure{"harness: no memory"};
		std::memcpy(base + to, stream.data.data() + from, length);
	});
	return base;
}

bool Inputs::unchanged(const Case& testCase) const
{
	for (std::size_t i = 0; i < testCase.streams.size(); ++i)
	{
		const Stream& stream = testCase.streams[i];
		Bytes indices = stream.indexBytes();
		bool same = true;
		forParts(stream, [&](std::size_t at, std::size_t from, std::size_t length)
		{
			same = same && std::memcmp(m_vertices[i] + at, stream.data.data() + from, length) == 0;
		});
		if (!same)
			return false;
		if (!indices.empty() && std::memcmp(m_indices[i], indices.data(), indices.size()) != 0)
			return false;
	}
	return true;
}

void Inputs::overwrite(const Case& testCase)
{
	for (std::size_t i = 0; i < testCase.streams.size(); ++i)
	{
		const Stream& stream = testCase.streams[i];
		Bytes indices = stream.indexBytes();
		forParts(stream, [&](std::size_t to, std::size_t from, std::size_t length)
		{
			std::memcpy(const_cast<std::uint8_t*>(m_vertices[i]) + to, stream.data.data() + from, length);
		});
		if (!indices.empty())
			std::memcpy(const_cast<std::uint8_t*>(m_indices[i]), indices.data(), indices.size());
	}
}

vfc::Converter makeConverter(const Case& testCase, std::vector<std::string>& messages)
{
	auto log = [&messages](const char* message) {messages.push_back(message);};
	if (testCase.output.size() == 1)
	{
		if (testCase.defaultMax)
		{
			return vfc::Converter(testCase.output[0].make(), testCase.indexType, testCase.primitive,
				testCase.patchPoints, log);
		}
		return vfc::Converter(testCase.output[0].make(), testCase.indexType, testCase.primitive,
			testCase.patchPoints, testCase.maxIndex, log);
	}
	std::vector<vfc::VertexFormat> formats;
	for (const Format& format : testCase.output)
		formats.push_back(format.make());
	if (testCase.defaultMax)
	{
		return vfc::Converter(std::move(formats), testCase.indexType, testCase.primitive, testCase.patchPoints,
			log);
	}
	return vfc::Converter(std::move(formats), testCase.indexType, testCase.primitive, testCase.patchPoints,
		testCase.maxIndex, log);
}

bool addStream(vfc::Converter& converter, const Case& testCase, const Inputs& inputs, std::size_t index)
{
	const Stream& stream = testCase.streams[index];
	if (stream.indexType == IndexType::NoIndices)
		return converter.addVertexStream(stream.format.make(), inputs.vertices(index), stream.givenVertexCount());
	return converter.addVertexStream(stream.format.make(), inputs.vertices(index), stream.givenVertexCount(),
		stream.indexType, inputs.indices(index), static_cast<std::uint32_t>(stream.indices.size()));
}

void setTransforms(vfc::Converter& converter, const Case& testCase)
{
	for (std::size_t i = 0; i < testCase.transforms.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.transforms[i].size(); ++j)
		{
			if (testCase.transforms[i][j] != Transform::Identity)
				converter.setElementTransform(i, j, testCase.transforms[i][j]);
		}
	}
}

void collect(Result& result, const vfc::Converter& converter, const Case& testCase)
{
	result.vertices = converter.getVertices();
	result.vertexCount = converter.getVertexCount();
	result.buffers.clear();
	for (const vfc::IndexData& data : converter.getIndices())
	{
		Buffer buffer;
		buffer.type = data.type;
		buffer.baseVertex = data.baseVertex;
		unsigned size = ref::indexBytes(data.type);
		auto bytes = static_cast<const std::uint8_t*>(data.data);
		for (std::uint32_t i = 0; i < data.count && size; ++i)
		{
			std::uint32_t value = 0;
			for (unsigned j = 0; j < size; ++j)
				value |= std::uint32_t(bytes[std::size_t(i)*size + j]) << (8*j);
			buffer.indices.push_back(value);
		}
		result.buffers.push_back(buffer);
	}
	result.bounds.clear();
	if (!converter)
		return;
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		result.bounds.emplace_back();
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			vfc::VertexValue low, high;
			converter.getVertexElementBounds(low, high, i, j);
			ElementBounds bounds;
			for (unsigned k = 0; k < 4; ++k)
			{
				bounds.min[k] = low[k];
				bounds.max[k] = high[k];
			}
			result.bounds.back().push_back(bounds);
		}
	}
}

Result convertFrom(const Case& testCase, const Inputs& inputs)
{
	Result result;
	vfc::Converter converter = makeConverter(testCase, result.messages);
	setTransforms(converter, testCase);
	result.added = true;
	for (std::size_t i = 0; i < testCase.streams.size(); ++i)
		result.added = addStream(converter, testCase, inputs, i) && result.added;
	result.converted = converter.convert();
	collect(result, converter, testCase);
	if (!inputs.unchanged(testCase))
		throw pbt::Failure{"the input data was modified"};
	return result;
}

Result convert(const Case& testCase, unsigned misalignment)
{
	return convertFrom(testCase, Inputs(testCase, misalignment));
}

// ------------------------------------------------------------------------------------------ expectations

Expected::Expected(const Case& testCase)
	: m_case(testCase)
{
	std::vector<char> restarts(testCase.count, 0);
	if (ref::isStrip(testCase.primitive))
	{
		for (std::size_t s = 0; s < testCase.streams.size(); ++s)
		{
			if (!testCase.streamUsed(s))
				continue;
			for (std::uint32_t i = 0; i < testCase.count; ++i)
			{
				if (testCase.streams[s].restartAt(i))
					restarts[i] = 1;
			}
		}
	}
	for (const Format& format : testCase.output)
	{
		m_refs.emplace_back();
		for (const Element& element : format.elements)
		{
			Ref ref = {};
			if (!testCase.source(element.name, ref.stream, ref.element))
				throw pbt::Failure{"harness: element without input"};
			const Stream& stream = testCase.streams[ref.stream];
			const Element& in = stream.format.elements[ref.element];
			for (std::uint32_t i = 0; i < testCase.count; ++i)
			{
				if (ref::isStrip(testCase.primitive) && stream.restartAt(i))
					continue;
				double value[4];
				ref::decode(in.layout, in.type,
					stream.data.data() + std::size_t(stream.vertexAt(i))*stream.format.stride + in.offset, value);
				auto grow = [&](ElementBounds& bounds, bool known[4])
				{
					for (unsigned k = 0; k < 4; ++k)
					{
						if (std::isnan(value[k]))
							continue;
						bounds.min[k] = known[k] ? std::min(bounds.min[k], value[k]) : value[k];
						bounds.max[k] = known[k] ? std::max(bounds.max[k], value[k]) : value[k];
						known[k] = true;
					}
				};
				grow(ref.boundsWithRestarts, ref.knownWithRestarts);
				if (!restarts[i])
					grow(ref.bounds, ref.known);
			}
			m_refs.back().push_back(ref);
		}
	}
}

void Expected::input(double out[4], std::size_t stream, std::size_t element, std::uint32_t position) const
{
	const Ref& ref = m_refs[stream][element];
	const Stream& in = m_case.streams[ref.stream];
	const Element& inElement = in.format.elements[ref.element];
	ref::decode(inElement.layout, inElement.type,
		in.data.data() + std::size_t(in.vertexAt(position))*in.format.stride + inElement.offset, out);
}

void Expected::bounds(std::size_t stream, std::size_t element, bool atRestarts, ElementBounds& out,
	bool known[4]) const
{
	const Ref& ref = m_refs[stream][element];
	out = atRestarts ? ref.boundsWithRestarts : ref.bounds;
	std::memcpy(known, atRestarts ? ref.knownWithRestarts : ref.known, 4*sizeof(bool));
}

bool Expected::vertexMatches(const Result& result, std::uint32_t vertex, std::uint32_t position,
	std::string* why) const
{
	for (std::size_t i = 0; i < m_case.output.size(); ++i)
	{
		const Format& format = m_case.output[i];
		for (std::size_t j = 0; j < format.elements.size(); ++j)
		{
			const Element& element = format.elements[j];
			const std::uint8_t* data = result.vertices[i].data() + std::size_t(vertex)*format.stride +
				element.offset;
			double value[4];
			input(value, i, j, position);
			Transform transform = m_case.transforms[i][j];
			std::string elementWhy;
			bool ok = false;
			if (transform == Transform::UNormToSNorm || transform == Transform::SNormToUNorm)
			{
				for (double& v : value)
					v = transform == Transform::UNormToSNorm ? v*2 - 1.0 : v*0.5 + 0.5;
				ok = ref::acceptable(element.layout, element.type, value, data, &elementWhy, transformError);
			}
			else if (transform == Transform::Bounds && isNormalized(element.type))
			{
				for (int variant = 0; variant < 2 && !ok; ++variant)
				{
					ElementBounds bounds;
					bool known[4];
					this->bounds(i, j, variant != 0, bounds, known);
					double normalized[4];
					for (unsigned k = 0; k < 4; ++k)
					{
						double range = bounds.max[k] - bounds.min[k];
						if (!known[k] || !(range > epsilon) || std::isinf(range))
							normalized[k] = std::numeric_limits<double>::quiet_NaN(); // Any code.
						else
						{
							normalized[k] = (value[k] - bounds.min[k])/range;
							if (element.type == ElementType::SNorm)
								normalized[k] = normalized[k]*2 - 1;
						}
					}
					ok = ref::acceptable(element.layout, element.type, normalized, data, &elementWhy,
						transformError);
				}
			}
			else
				ok = ref::acceptable(element.layout, element.type, value, data, &elementWhy);
			if (!ok)
			{
				if (why)
				{
					*why = pbt::format("element '%s' at position %u: ", element.name.c_str(), position) +
						elementWhy;
				}
				return false;
			}
		}
	}
	return true;
}

// -------------------------------------------------------------------------------------------------- checks

void checkConverted(const Case& testCase, const Result& result, pbt::Context& context)
{
	(void)testCase;
	std::string message = result.messages.empty() ? std::string() : result.messages[0];
	PBT_REQUIRE(context, result.added, "a valid stream was refused: %s", message.c_str());
	PBT_REQUIRE(context, result.converted, "a valid conversion failed: %s", message.c_str());
}

void checkVertices(const Case& testCase, const Result& result, pbt::Context& context)
{
	PBT_REQUIRE(context, result.vertices.size() == testCase.output.size(),
		"%zu output streams instead of %zu", result.vertices.size(), testCase.output.size());
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		std::size_t stride = testCase.output[i].stride;
		PBT_REQUIRE(context, result.vertices[i].size() == result.vertexCount*stride,
			"output stream %zu has %zu bytes for %u vertices of %zu bytes", i, result.vertices[i].size(),
			result.vertexCount, stride);
	}
}

void checkBuffers(const Case& testCase, const Result& result, pbt::Context& context)
{
	if (testCase.indexType == IndexType::NoIndices)
	{
		PBT_REQUIRE(context, result.buffers.empty(), "index buffers without indices");
		return;
	}
	PBT_REQUIRE(context, !result.buffers.empty() || testCase.count == 0, "no index buffers");
	bool strip = ref::isStrip(testCase.primitive);
	std::uint32_t restart = ref::restartValue(testCase.indexType);
	std::uint64_t limit = testCase.limit();
	unsigned stride = testCase.primitiveStride();
	for (std::size_t i = 0; i < result.buffers.size(); ++i)
	{
		const Buffer& buffer = result.buffers[i];
		PBT_REQUIRE(context, buffer.type == testCase.indexType, "buffer %zu has the wrong index type", i);
		PBT_REQUIRE(context, i > 0 || buffer.baseVertex == 0, "first base vertex is %lld",
			static_cast<long long>(buffer.baseVertex));
		if (i > 0)
		{
			PBT_REQUIRE(context, !buffer.indices.empty(), "buffer %zu is empty", i);
			std::int64_t range = buffer.baseVertex - result.buffers[i - 1].baseVertex;
			PBT_REQUIRE(context, range > 0, "base vertex %lld after %lld",
				static_cast<long long>(buffer.baseVertex),
				static_cast<long long>(result.buffers[i - 1].baseVertex));
			PBT_REQUIRE(context, static_cast<std::uint64_t>(range) + stride - 1 > limit,
				"buffer %zu started when the previous one had only %lld vertices, with maximum index %llu", i,
				static_cast<long long>(range), static_cast<unsigned long long>(limit));
		}
		for (std::uint32_t index : buffer.indices)
		{
			context.checked();
			if (strip && index == restart)
				continue;
			PBT_REQUIRE(context, index <= limit, "buffer %zu has index %u over the maximum %llu", i, index,
				static_cast<unsigned long long>(limit));
			PBT_REQUIRE(context, buffer.baseVertex + std::int64_t(index) < std::int64_t(result.vertexCount),
				"buffer %zu index %u with base vertex %lld is outside %u vertices", i, index,
				static_cast<long long>(buffer.baseVertex), result.vertexCount);
		}
	}
}

void checkLists(const Case& testCase, const Result& result, pbt::Context& context)
{
	Expected expected(testCase);
	std::string why;
	if (testCase.indexType == IndexType::NoIndices)
	{
		PBT_REQUIRE(context, result.vertexCount == testCase.count, "%u vertices instead of %u",
			result.vertexCount, testCase.count);
		for (std::uint32_t i = 0; i < testCase.count; ++i)
		{
			context.checked();
			if (!expected.vertexMatches(result, i, i, &why))
				context.fail(why);
		}
		return;
	}
	unsigned stride = testCase.primitiveStride();
	std::uint32_t position = 0;
	for (std::size_t i = 0; i < result.buffers.size(); ++i)
	{
		const Buffer& buffer = result.buffers[i];
		PBT_REQUIRE(context, buffer.indices.size() % stride == 0,
			"buffer %zu holds %zu indices, not whole primitives of %u", i, buffer.indices.size(), stride);
		for (std::uint32_t index : buffer.indices)
		{
			context.checked();
			PBT_REQUIRE(context, position < testCase.count, "more than %u corners", testCase.count);
			auto vertex = static_cast<std::uint64_t>(buffer.baseVertex + index);
			PBT_REQUIRE(context, vertex < result.vertexCount, "vertex %llu of %u",
				static_cast<unsigned long long>(vertex), result.vertexCount);
			if (!expected.vertexMatches(result, static_cast<std::uint32_t>(vertex), position, &why))
				context.fail(pbt::format("buffer %zu: ", i) + why);
			++position;
		}
	}
	PBT_REQUIRE(context, position == testCase.count, "%u corners instead of %u", position, testCase.count);
}

namespace
{

struct Piece
{
	std::uint32_t corner[3];
	bool mayReverse; // In the way that is a known finding.
};

void piecesOfRun(PrimitiveType primitive, const std::vector<std::uint32_t>& run, std::vector<Piece>& pieces,
	bool mayReverse)
{
	switch (primitive)
	{
		case PrimitiveType::LineStrip:
			for (std::size_t i = 1; i < run.size(); ++i)
				pieces.push_back(Piece{{run[i - 1], run[i], 0}, false});
			break;
		case PrimitiveType::TriangleFan:
			for (std::size_t i = 2; i < run.size(); ++i)
				pieces.push_back(Piece{{run[0], run[i - 1], run[i]}, false});
			break;
		case PrimitiveType::TriangleStrip:
			for (std::size_t i = 2; i < run.size(); ++i)
			{
				if (i % 2 == 0)
					pieces.push_back(Piece{{run[i - 2], run[i - 1], run[i]}, mayReverse});
				else
					pieces.push_back(Piece{{run[i - 1], run[i - 2], run[i]}, mayReverse});
			}
			break;
		default:
			break;
	}
}

} // namespace

unsigned checkStrips(const Case& testCase, const Result& result, pbt::Context& context)
{
	Expected expected(testCase);
	std::vector<Piece> in, out;
	std::vector<std::uint32_t> run;
	for (std::uint32_t i = 0; i < testCase.count; ++i)
	{
		if (testCase.restart(i))
		{
			piecesOfRun(testCase.primitive, run, in, false);
			run.clear();
		}
		else
			run.push_back(i);
	}
	piecesOfRun(testCase.primitive, run, in, false);
	run.clear();

	if (testCase.indexType == IndexType::NoIndices)
	{
		PBT_REQUIRE(context, result.vertexCount == testCase.count, "%u vertices instead of %u",
			result.vertexCount, testCase.count);
		for (std::uint32_t i = 0; i < result.vertexCount; ++i)
			run.push_back(i);
		piecesOfRun(testCase.primitive, run, out, false);
	}
	else
	{
		std::uint32_t restart = ref::restartValue(testCase.indexType);
		bool mayReverse = false;
		for (const Buffer& buffer : result.buffers)
		{
			for (std::uint32_t index : buffer.indices)
			{
				if (index == restart)
				{
					piecesOfRun(testCase.primitive, run, out, mayReverse);
					run.clear();
					mayReverse = false;
					continue;
				}
				auto vertex = static_cast<std::uint64_t>(buffer.baseVertex + index);
				PBT_REQUIRE(context, vertex < result.vertexCount, "vertex %llu of %u",
					static_cast<unsigned long long>(vertex), result.vertexCount);
				run.push_back(static_cast<std::uint32_t>(vertex));
			}
			piecesOfRun(testCase.primitive, run, out, mayReverse);
			if (run.size() >= 3 && run.size() % 2 != 0)
				mayReverse = !mayReverse;
			run.clear();
		}
	}

	bool line = testCase.primitive == PrimitiveType::LineStrip;
	const char* what = line ? "lines" : "triangles";
	PBT_REQUIRE(context, in.size() == out.size(), "%zu %s instead of %zu", out.size(), what, in.size());
	unsigned reversed = 0;
	bool listed = pbt::knownFindingListed(context.options, "C02:strip-winding");
	for (std::size_t i = 0; i < in.size(); ++i)
	{
		context.checked();
		std::string why;
		if (line)
		{
			if (!expected.vertexMatches(result, out[i].corner[0], in[i].corner[0], &why) ||
				!expected.vertexMatches(result, out[i].corner[1], in[i].corner[1], &why))
			{
				context.fail(pbt::format("line %zu: ", i) + why);
			}
			continue;
		}
		auto matches = [&](unsigned a, unsigned b, unsigned c, std::string* w)
		{
			return expected.vertexMatches(result, out[i].corner[a], in[i].corner[0], w) &&
				expected.vertexMatches(result, out[i].corner[b], in[i].corner[1], w) &&
				expected.vertexMatches(result, out[i].corner[c], in[i].corner[2], w);
		};
		if (matches(0, 1, 2, &why) || matches(1, 2, 0, nullptr) || matches(2, 0, 1, nullptr))
			continue;
		if (matches(1, 0, 2, nullptr) || matches(0, 2, 1, nullptr) || matches(2, 1, 0, nullptr))
		{
			if (out[i].mayReverse && listed)
			{
				++reversed;
				continue;
			}
			context.fail(pbt::format("triangle %zu has the opposite winding", i));
		}
		context.fail(pbt::format("triangle %zu: ", i) + why);
	}
	return reversed;
}

void checkSharing(const Case& testCase, const Result& result, pbt::Context& context)
{
	if (testCase.indexType == IndexType::NoIndices)
	{
		PBT_REQUIRE(context, result.vertexCount == testCase.count, "%u vertices instead of %u",
			result.vertexCount, testCase.count);
		return;
	}
	for (std::size_t b = 0; b < result.buffers.size(); ++b)
	{
		std::int64_t begin = result.buffers[b].baseVertex;
		std::int64_t end = b + 1 < result.buffers.size() ? result.buffers[b + 1].baseVertex :
			std::int64_t(result.vertexCount);
		std::set<Bytes> seen;
		for (std::int64_t v = begin; v < end; ++v)
		{
			Bytes all;
			for (std::size_t i = 0; i < testCase.output.size(); ++i)
			{
				std::size_t stride = testCase.output[i].stride;
				auto data = result.vertices[i].begin() + static_cast<std::ptrdiff_t>(v*static_cast<std::int64_t>(stride));
				all.insert(all.end(), data, data + static_cast<std::ptrdiff_t>(stride));
			}
			context.checked();
			PBT_REQUIRE(context, seen.insert(all).second, "buffer %zu stores vertex %s twice", b,
				ref::hex(all.data(), all.size()).c_str());
		}
	}
}

void checkBounds(const Case& testCase, const Result& result, pbt::Context& context)
{
	Expected expected(testCase);
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			ElementBounds without, with;
			bool known[4], knownWith[4];
			expected.bounds(i, j, false, without, known);
			expected.bounds(i, j, true, with, knownWith);
			const ElementBounds& got = result.bounds[i][j];
			for (unsigned k = 0; k < 4; ++k)
			{
				context.checked();
				if (!known[k])
					continue;
				bool low = got.min[k] == without.min[k] || (knownWith[k] && got.min[k] == with.min[k]);
				bool high = got.max[k] == without.max[k] || (knownWith[k] && got.max[k] == with.max[k]);
				PBT_REQUIRE(context, low && high,
					"element '%s' component %u: bounds [%.17g, %.17g] instead of [%.17g, %.17g]",
					testCase.output[i].elements[j].name.c_str(), k, got.min[k], got.max[k], without.min[k],
					without.max[k]);
			}
		}
	}
}

void checkPrimitives(const Case& testCase, const Result& result, pbt::Context& context)
{
	if (ref::isStrip(testCase.primitive))
		checkStrips(testCase, result, context);
	else
		checkLists(testCase, result, context);
}

void classify(const Case& testCase, const Result& result, pbt::Context& context)
{
	context.label(ref::primitiveName(testCase.primitive));
	context.label(testCase.indexType == IndexType::NoIndices ? "output not indexed" :
		testCase.indexType == IndexType::UInt16 ? "output 16-bit indices" : "output 32-bit indices");
	context.labelIf(testCase.output.size() > 1, "several output streams");
	context.labelIf(testCase.streams.size() > 1, "several input streams");
	context.labelIf(result.buffers.size() > 1, "split into several index buffers");
	context.labelIf(result.buffers.size() > 4, "split into more than four index buffers");
	context.labelIf(testCase.count > 60000, "tens of thousands of vertices");
	if (ref::isStrip(testCase.primitive))
	{
		bool restart = testCase.hasRestart();
		context.labelIf(restart, "with primitive restarts");
		context.labelIf(restart && result.buffers.size() > 1, "restarts and splits");
	}
	bool mixed = false;
	for (const Stream& stream : testCase.streams)
	{
		context.labelIf(stream.hasGap(), "vertices very far away");
		if (stream.indexType != testCase.streams[0].indexType)
			mixed = true;
	}
	context.labelIf(mixed, "streams with different index types");
	context.labelIf(testCase.indexType != IndexType::NoIndices && result.vertexCount < testCase.count,
		"vertices shared");
}

} // namespace mesh
