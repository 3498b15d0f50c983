// Generated conversion cases, the reference interpretation of a mesh, and checks of a conversion result.
#pragma once

#include "core.h"
#include "ref.h"

#include <VFC/Converter.h>

#include <memory>
#include <string>
#include <vector>

namespace mesh
{

using ref::ElementLayout;
using ref::ElementType;
using ref::IndexType;
using ref::PrimitiveType;
using Transform = vfc::Converter::Transform;
using Bytes = std::vector<std::uint8_t>;

struct Element
{
	std::string name;
	ElementLayout layout;
	ElementType type;
	std::uint32_t offset; // By the reference table.
};

struct Format
{
	std::vector<Element> elements;
	std::uint32_t stride = 0;

	void add(const std::string& name, ElementLayout layout, ElementType type);
	int find(const std::string& name) const;
	vfc::VertexFormat make() const;
};

struct Stream
{
	Format format;
	Bytes data; // vertexCount*stride bytes.
	std::uint32_t vertexCount = 0;
	IndexType indexType = IndexType::NoIndices;
	std::vector<std::uint32_t> indices;
	// Streams handed over as views of an earlier stream's memory, while their bytes agree.
	int dataAlias = -1;
	std::size_t dataAliasOffset = 0;
	int indexAlias = -1;
	// Vertices from gapAt on are handed over that many vertices further, after unreadable memory.
	std::uint32_t gapAt = 0;
	std::uint32_t gap = 0;

	// Of what is handed over.
	bool hasGap() const
	{
		return gap > 0 && indexType == IndexType::UInt32 && gapAt < vertexCount &&
			vertexCount <= 0xFFFFFFFE - gap;
	}
	std::uint32_t givenVertexCount() const
	{
		return hasGap() ? vertexCount + gap : vertexCount;
	}
	std::uint32_t count() const
	{
		return indexType == IndexType::NoIndices ? vertexCount :
			static_cast<std::uint32_t>(indices.size());
	}
	bool restartAt(std::uint32_t i) const
	{
		return indexType != IndexType::NoIndices && indices[i] == ref::restartValue(indexType);
	}
	std::uint32_t vertexAt(std::uint32_t i) const
	{
		return indexType == IndexType::NoIndices ? i : indices[i];
	}
	Bytes indexBytes() const;
};

struct Case
{
	std::vector<Format> output;
	std::vector<std::vector<Transform>> transforms;
	IndexType indexType = IndexType::NoIndices;
	PrimitiveType primitive = PrimitiveType::TriangleList;
	unsigned patchPoints = 0;
	bool defaultMax = true;
	std::uint32_t maxIndex = 0; // Meaningful for indexed output.
	std::vector<Stream> streams;
	std::uint32_t count = 0; // Indices or vertices of the mesh.

	bool hasRestart() const;
	unsigned primitiveStride() const; // Corners per primitive of a list, 1 for strips.
	std::uint32_t limit() const; // The maximum index in effect.
	// Stream and element supplying an output element.
	bool source(const std::string& name, std::size_t& stream, std::size_t& element) const;
	bool streamUsed(std::size_t stream) const;
	bool restart(std::uint32_t i) const; // Restart at a position, by any used stream.
	std::string text() const;
	std::uint64_t digest() const;
};

struct Buffer
{
	IndexType type;
	std::int64_t baseVertex;
	std::vector<std::uint32_t> indices;
};

struct ElementBounds
{
	double min[4];
	double max[4];
};

struct Result
{
	bool added = false;
	bool converted = false;
	std::vector<std::string> messages;
	std::vector<Bytes> vertices;
	std::vector<Buffer> buffers;
	std::vector<std::vector<ElementBounds>> bounds;
	std::uint32_t vertexCount = 0;

	bool operator==(const Result& other) const;
};

// What a generator may produce.
struct Gen
{
	bool lists = true;
	bool strips = true;
	int indexed = -1;       // Output indices: 0 never, 1 always, -1 either.
	bool splits = true;     // Explicit small maximum indices.
	bool transforms = false;
	bool normalizedBounds = false; // Prefer bounds transforms to normalized formats.
	bool nonFinite = true;
	bool nan = true;
	unsigned bigOneIn = 0;  // How rarely tens of thousands of vertices, 0 for never.
	bool collisions = true;
	bool unused = true;     // Elements and streams that aren't converted.
	bool empty = false;     // Sometimes no vertices at all.
	unsigned maxStreams = 4;
	unsigned maxPrimitives = 24;
	bool restartOnAllStreams = false;
	bool repeats = false;   // An element in several output streams.
	bool gaps = true;       // Vertices that are very far away.
	bool cli = false;       // Only what the command-line tool can express.
};

Case generate(pbt::Source& source, const Gen& gen);
// Raw bytes of an element: simple, typical and special values.
void generateElement(pbt::Source& source, const Gen& gen, ElementLayout layout, ElementType type,
	std::uint8_t* data);

// Input memory handed to the converter: exactly sized copies, at a chosen misalignment of vertex data.
class Inputs
{
public:
	Inputs(const Case& testCase, unsigned misalignment = 0);
	Inputs(const Inputs&) = delete;
	Inputs& operator=(const Inputs&) = delete;
	~Inputs();
	const void* vertices(std::size_t stream) const {return m_vertices[stream];}
	const void* indices(std::size_t stream) const {return m_indices[stream];}
	bool unchanged(const Case& testCase) const;
	// Other contents of the same sizes; without views of other streams.
	void overwrite(const Case& testCase);

private:
	const std::uint8_t* mapVertices(const Stream& stream, unsigned misalignment);

	std::vector<std::unique_ptr<std::uint8_t[]>> m_memory;
	std::vector<std::pair<void*, std::size_t>> m_mapped;
	std::vector<const std::uint8_t*> m_vertices;
	std::vector<const std::uint8_t*> m_indices;
};

vfc::Converter makeConverter(const Case& testCase, std::vector<std::string>& messages);
bool addStream(vfc::Converter& converter, const Case& testCase, const Inputs& inputs, std::size_t stream);
void setTransforms(vfc::Converter& converter, const Case& testCase);
void collect(Result& result, const vfc::Converter& converter, const Case& testCase);
Result convertFrom(const Case& testCase, const Inputs& inputs);
Result convert(const Case& testCase, unsigned misalignment = 0);

// Expected values.
class Expected
{
public:
	explicit Expected(const Case& testCase);
	// Input value of an output element at a position of the mesh, before the transform.
	void input(double out[4], std::size_t stream, std::size_t element, std::uint32_t position) const;
	// Whether the bytes of an output vertex are right for the position.
	bool vertexMatches(const Result& result, std::uint32_t vertex, std::uint32_t position,
		std::string* why) const;
	// The bounds of an output element; false per component if unspecified (only NaN values).
	void bounds(std::size_t stream, std::size_t element, bool atRestarts, ElementBounds& out,
		bool known[4]) const;

private:
	struct Ref
	{
		std::size_t stream;
		std::size_t element;
		ElementBounds bounds;
		ElementBounds boundsWithRestarts;
		bool known[4];
		bool knownWithRestarts[4];
	};
	const Case& m_case;
	std::vector<std::vector<Ref>> m_refs;
};

// Checks; each throws Failure through the context.
void checkConverted(const Case& testCase, const Result& result, pbt::Context& context);
void checkVertices(const Case& testCase, const Result& result, pbt::Context& context);  // Sizes.
void checkBuffers(const Case& testCase, const Result& result, pbt::Context& context);
void checkLists(const Case& testCase, const Result& result, pbt::Context& context);
// Returns how many triangles have the wrong winding in the way recorded as a known finding.
unsigned checkStrips(const Case& testCase, const Result& result, pbt::Context& context);
void checkSharing(const Case& testCase, const Result& result, pbt::Context& context);
void checkBounds(const Case& testCase, const Result& result, pbt::Context& context);
void checkPrimitives(const Case& testCase, const Result& result, pbt::Context& context);

void classify(const Case& testCase, const Result& result, pbt::Context& context);

} // namespace mesh
