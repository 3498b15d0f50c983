// Converter properties over call histories: C09, C10, C12.
#include "mesh.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <unistd.h>

using namespace mesh;
using pbt::Context;
using pbt::Source;

namespace
{

enum class Answer {No, Yes, Either};

// What a converter should say to each call.
struct Model
{
	explicit Model(const Case& _setup) : setup(&_setup), valid(validSetup(_setup)) {}

	static bool validSetup(const Case& setup)
	{
		if (setup.output.empty() || setup.primitive == PrimitiveType::Invalid)
			return false;
		for (const Format& format : setup.output)
		{
			if (format.elements.empty())
				return false;
		}
		if (setup.primitive == PrimitiveType::PatchList && setup.patchPoints == 0)
			return false;
		if (setup.indexType != IndexType::NoIndices)
		{
			std::uint64_t limit = setup.limit();
			if (limit + 1 < ref::primitiveMinimum(setup.primitive, setup.patchPoints) ||
				limit > ref::restartValue(setup.indexType))
			{
				return false;
			}
		}
		return true;
	}

	bool requested(const std::string& name) const
	{
		for (const Format& format : setup->output)
		{
			if (format.find(name) >= 0)
				return true;
		}
		return false;
	}

	Answer add(const Stream& stream, bool nullVertices, bool nullIndices) const
	{
		bool indexed = stream.indexType != IndexType::NoIndices;
		if (!valid || nullVertices || (indexed && nullIndices))
			return Answer::No;
		if (!ref::countValid(setup->primitive, stream.count(), setup->patchPoints))
			return Answer::No;
		for (const Element& element : stream.format.elements)
		{
			if (requested(element.name) && supplied.count(element.name))
				return Answer::No;
		}
		if (haveCount && count != stream.count())
		{
			// Streams that supply nothing and hold nothing: whether they fix the count isn't specified.
			return count == 0 && accepted.empty() ? Answer::Either : Answer::No;
		}
		return Answer::Yes;
	}

	void added(const Stream& stream, std::size_t id)
	{
		haveCount = true;
		count = stream.count();
		bool used = false;
		for (const Element& element : stream.format.elements)
		{
			if (requested(element.name))
			{
				supplied.insert(element.name);
				used = true;
			}
		}
		if (used)
			accepted.push_back(id);
	}

	bool complete() const
	{
		for (const Format& format : setup->output)
		{
			for (const Element& element : format.elements)
			{
				if (!supplied.count(element.name))
					return false;
			}
		}
		return true;
	}

	bool convert(const std::vector<const Stream*>& streams) const
	{
		if (!valid || converted || !complete())
			return false;
		for (std::size_t id : accepted)
		{
			const Stream& stream = *streams[id];
			for (std::uint32_t i = 0; i < count; ++i)
			{
				if (ref::isStrip(setup->primitive) && stream.restartAt(i))
				{
					if (setup->indexType == IndexType::NoIndices)
						return false;
				}
				else if (stream.vertexAt(i) >= stream.vertexCount)
					return false;
			}
		}
		return true;
	}

	const Case* setup;
	bool valid;
	bool haveCount = false;
	std::uint32_t count = 0;
	std::set<std::string> supplied;
	std::vector<std::size_t> accepted; // Of the streams that supply something.
	bool converted = false;
};

struct Perturbed
{
	Case testCase;
	std::vector<char> nullVertices;
	std::vector<char> nullIndices;
	std::vector<const char*> done;
};

void resizeStream(Source& source, Stream& stream, std::uint32_t count)
{
	if (stream.indexType == IndexType::NoIndices)
	{
		stream.vertexCount = count;
		stream.data.resize(std::size_t(count)*stream.format.stride, 0x3c);
	}
	else
	{
		std::uint32_t filler = stream.vertexCount ? static_cast<std::uint32_t>(source.below(stream.vertexCount)) : 0;
		stream.indices.resize(count, filler);
	}
}

// A stream with some elements of another, filled anyhow.
Stream part(Source& source, const Stream& from, const std::vector<const Element*>& elements)
{
	Stream result;
	result.vertexCount = from.vertexCount;
	result.indexType = from.indexType;
	result.indices = from.indices;
	for (const Element* element : elements)
		result.format.add(element->name, element->layout, element->type);
	result.data.assign(std::size_t(result.vertexCount)*result.format.stride,
		static_cast<std::uint8_t>(source.below(0x70)));
	return result;
}

// Replaces a stream by streams with some of its elements, which may overlap, and perhaps itself, in any order.
void divideStream(Source& source, Perturbed& p, std::size_t s)
{
	Case& c = p.testCase;
	Stream whole = c.streams[s];
	whole.dataAlias = whole.indexAlias = -1;
	if (whole.format.elements.empty())
		return;
	std::vector<const Element*> first, second;
	for (const Element& element : whole.format.elements)
	{
		switch (source.weighted({4, 4, 1}))
		{
			case 0:
				first.push_back(&element);
				break;
			case 1:
				second.push_back(&element);
				break;
			default:
				first.push_back(&element);
				second.push_back(&element);
				break;
		}
	}
	std::vector<Stream> parts;
	if (!first.empty())
		parts.push_back(part(source, whole, first));
	if (!second.empty())
		parts.push_back(part(source, whole, second));
	if (source.chance(2, 3))
		parts.push_back(whole);
	for (std::size_t i = parts.size(); i > 1; --i)
		std::swap(parts[i - 1], parts[source.below(i)]);
	auto at = static_cast<std::ptrdiff_t>(s);
	c.streams.erase(c.streams.begin() + at);
	c.streams.insert(c.streams.begin() + at, parts.begin(), parts.end());
	p.nullVertices.resize(c.streams.size(), 0);
	p.nullIndices.resize(c.streams.size(), 0);
	p.done.push_back("stream divided");
}

// Anywhere, often among the last.
std::size_t anyPosition(Source& source, std::size_t count)
{
	return source.flip() ? source.below(count) : count - 1 - source.small(static_cast<unsigned>(std::min<std::size_t>(count - 1, 20)));
}

void perturb(Source& source, Perturbed& p, bool setupToo)
{
	Case& c = p.testCase;
	std::size_t s = source.below(c.streams.size());
	Stream& stream = c.streams[s];
	switch (source.range(setupToo ? 0 : 8, 20))
	{
		case 0:
			c.output.clear();
			c.transforms.clear();
			p.done.push_back("no formats");
			break;
		case 1:
		{
			std::size_t at = source.below(c.output.size() + 1);
			c.output.insert(c.output.begin() + static_cast<std::ptrdiff_t>(at), Format());
			c.transforms.insert(c.transforms.begin() + static_cast<std::ptrdiff_t>(at), std::vector<Transform>());
			p.done.push_back("empty format");
			break;
		}
		case 2:
			c.primitive = PrimitiveType::Invalid;
			p.done.push_back("invalid primitive");
			break;
		case 3:
			c.primitive = PrimitiveType::PatchList;
			c.patchPoints = 0;
			p.done.push_back("patches without size");
			break;
		case 4:
		case 5:
		{
			unsigned minimum = ref::primitiveMinimum(c.primitive, c.patchPoints);
			if (c.indexType == IndexType::NoIndices && source.flip())
				c.indexType = IndexType::UInt16;
			c.defaultMax = false;
			c.maxIndex = static_cast<std::uint32_t>(source.below(minimum + 1));
			p.done.push_back("maximum index around one primitive");
			break;
		}
		case 6:
		{
			c.defaultMax = false;
			switch (source.below(4))
			{
				case 0:
					c.maxIndex = static_cast<std::uint32_t>(source.range(65533, 65538));
					break;
				case 1:
					c.maxIndex = static_cast<std::uint32_t>(0xFFFFFFFFU - source.below(3));
					break;
				case 2:
					c.maxIndex = static_cast<std::uint32_t>(source.below(0x100000000));
					break;
				default:
					// Small numbers in the lower bits only.
					c.maxIndex = static_cast<std::uint32_t>((source.range(1, 127) << source.range(16, 31)) +
						source.below(300));
					break;
			}
			p.done.push_back("maximum index around the type's maximum");
			break;
		}
		case 7:
		{
			c.primitive = PrimitiveType::PatchList;
			c.patchPoints = source.flip() ? static_cast<unsigned>(source.range(1, 40)) :
				static_cast<unsigned>(source.range(65533, 65537));
			p.done.push_back("any patch size");
			break;
		}
		case 8:
			p.nullVertices[s] = 1;
			p.done.push_back("no vertex data");
			break;
		case 9:
			p.nullIndices[s] = 1;
			p.done.push_back("no index data");
			break;
		case 10:
			resizeStream(source, stream, source.flip() ? static_cast<std::uint32_t>(source.below(8)) :
				stream.count() + static_cast<std::uint32_t>(source.range(1, 3)));
			p.done.push_back("another count");
			break;
		case 11:
		{
			// The same elements again.
			Stream copy = c.streams[source.below(c.streams.size())];
			c.streams.push_back(copy);
			p.nullVertices.push_back(0);
			p.nullIndices.push_back(0);
			p.done.push_back("stream repeated");
			break;
		}
		case 12:
			if (c.streams.size() > 1)
			{
				c.streams.erase(c.streams.begin() + static_cast<std::ptrdiff_t>(s));
				p.nullVertices.pop_back();
				p.nullIndices.pop_back();
				p.done.push_back("stream left out");
			}
			break;
		case 13:
			if (stream.indexType != IndexType::NoIndices && !stream.indices.empty())
			{
				std::uint32_t values[] = {stream.vertexCount, stream.vertexCount + 1, stream.vertexCount - 1, 0xFFFE,
					0xFFFF, 0x10000, 0xFFFFFFFE, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF};
				std::uint32_t value = source.pick(values);
				if (stream.indexType == IndexType::UInt16)
					value &= 0xFFFF;
				stream.indices[anyPosition(source, stream.indices.size())] = value;
				p.done.push_back("any index");
			}
			break;
		case 14:
			if (stream.indexType != IndexType::NoIndices && !stream.indices.empty())
			{
				stream.indices[anyPosition(source, stream.indices.size())] = ref::restartValue(stream.indexType);
				if (source.flip())
					c.indexType = IndexType::NoIndices;
				p.done.push_back("restart");
			}
			break;
		case 15:
		{
			std::uint32_t count = static_cast<std::uint32_t>(source.below(5));
			for (Stream& each : c.streams)
				resizeStream(source, each, count);
			p.done.push_back("few vertices");
			break;
		}
		case 17:
		case 18:
			divideStream(source, p, s);
			break;
		case 19:
			if (stream.indexType != IndexType::NoIndices && !stream.indices.empty() && stream.format.stride <= 1024 &&
				source.chance(1, 6))
			{
				// As many vertices as 16-bit indices can name, about.
				stream.vertexCount = static_cast<std::uint32_t>(source.range(65534, 65537));
				stream.data.resize(std::size_t(stream.vertexCount)*stream.format.stride, 0x3c);
				std::uint32_t values[] = {stream.vertexCount, stream.vertexCount - 1, 0xFFFE, 0xFFFF};
				std::uint32_t value = source.pick(values);
				if (stream.indexType == IndexType::UInt16)
					value &= 0xFFFF;
				stream.indices[anyPosition(source, stream.indices.size())] = value;
				p.done.push_back("many vertices");
			}
			break;
		default:
			// Fewer vertices than the indices name.
			if (stream.indexType != IndexType::NoIndices && stream.vertexCount > 0)
			{
				stream.vertexCount = static_cast<std::uint32_t>(source.below(stream.vertexCount));
				stream.data.resize(std::size_t(stream.vertexCount)*stream.format.stride);
				p.done.push_back("fewer vertices");
			}
			break;
	}
}

Perturbed generatePerturbed(Source& source, unsigned most, bool setupToo)
{
	Gen gen;
	gen.empty = true;
	gen.maxPrimitives = 8;
	gen.bigOneIn = 1500;
	Perturbed p;
	p.testCase = generate(source, gen);
	p.nullVertices.assign(p.testCase.streams.size(), 0);
	p.nullIndices.assign(p.testCase.streams.size(), 0);
	unsigned count = static_cast<unsigned>(source.below(most + 1));
	for (unsigned i = 0; i < count; ++i)
		perturb(source, p, setupToo);
	return p;
}

// The order of the arguments of the constructors doesn't depend on the number of formats here.
vfc::Converter construct(Source& source, const Case& testCase, std::vector<std::string>& messages,
	const vfc::Converter::ErrorFunction* errorFunction = nullptr)
{
	vfc::Converter::ErrorFunction log =
		[&messages](const char* message) {messages.push_back(message ? message : "");};
	if (errorFunction)
		log = *errorFunction;
	std::vector<vfc::VertexFormat> formats;
	for (const Format& format : testCase.output)
		formats.push_back(format.make());
	if (formats.size() == 1 && source.flip())
	{
		if (testCase.defaultMax)
		{
			return vfc::Converter(std::move(formats[0]), testCase.indexType, testCase.primitive,
				testCase.patchPoints, log);
		}
		return vfc::Converter(std::move(formats[0]), testCase.indexType, testCase.primitive, testCase.patchPoints,
			testCase.maxIndex, log);
	}
	if (testCase.defaultMax)
	{
		return vfc::Converter(std::move(formats), testCase.indexType, testCase.primitive, testCase.patchPoints,
			log);
	}
	return vfc::Converter(std::move(formats), testCase.indexType, testCase.primitive, testCase.patchPoints,
		testCase.maxIndex, log);
}

bool callAdd(vfc::Converter& converter, const Stream& stream, const void* vertices, const void* indices)
{
	if (stream.indexType == IndexType::NoIndices)
		return converter.addVertexStream(stream.format.make(), vertices, stream.givenVertexCount());
	return converter.addVertexStream(stream.format.make(), vertices, stream.givenVertexCount(), stream.indexType, indices,
		static_cast<std::uint32_t>(stream.indices.size()));
}

std::string perturbedText(const Perturbed& p)
{
	std::string text = p.testCase.text();
	for (std::size_t i = 0; i < p.testCase.streams.size(); ++i)
	{
		if (p.nullVertices[i])
			text += pbt::format("\n in[%zu] vertex data is null", i);
		if (p.nullIndices[i])
			text += pbt::format("\n in[%zu] index data is null", i);
	}
	for (const char* done : p.done)
		text += std::string("\n (") + done + ")";
	return text;
}

void beginPerturbed(const Perturbed& p, Context& context)
{
	context.digest(p.testCase.digest());
	for (std::size_t i = 0; i < p.nullVertices.size(); ++i)
		context.digest(static_cast<std::uint64_t>(p.nullVertices[i]*2 + p.nullIndices[i]));
	if (context.wantText)
		context.describe(perturbedText(p));
}

// ------------------------------------------------------------------------------------------------------ C09

// Takes what is written to the standard error meanwhile.
class ErrorCapture
{
public:
	ErrorCapture()
	{
		m_file = memfd_create("messages", MFD_CLOEXEC);
		std::fflush(stderr);
		m_saved = dup(2);
		dup2(m_file, 2);
	}

	~ErrorCapture()
	{
		std::fflush(stderr);
		dup2(m_saved, 2);
		close(m_saved);
		close(m_file);
	}

	// What was written since the last call.
	std::string take()
	{
		std::fflush(stderr);
		std::string text;
		char buffer[4096];
		ssize_t size;
		while ((size = pread(m_file, buffer, sizeof(buffer), m_position)) > 0)
		{
			text.append(buffer, static_cast<std::size_t>(size));
			m_position += size;
		}
		return text;
	}

private:
	int m_file;
	int m_saved;
	off_t m_position = 0;
};

// Names no stream supplies, as many as counters of some sizes hold, about.
void missingElements(Source& source, Perturbed& p)
{
	Case& c = p.testCase;
	if (c.output.empty())
		return;
	static const unsigned counts[] = {64, 128, 256, 512};
	unsigned count = source.flip() ? source.pick(counts) :
		source.flip() ? static_cast<unsigned>(source.range(62, 66)) : static_cast<unsigned>(source.range(1, 40));
	bool few = source.flip();
	if (few)
	{
		// Nothing else.
		c.output.resize(1);
		c.transforms.resize(1);
		c.output[0] = Format();
		c.transforms[0].clear();
	}
	for (unsigned i = 0; i < count; ++i)
	{
		std::size_t at = source.below(c.output.size());
		auto e = source.pick(ref::validElements());
		c.output[at].add(pbt::format("missing%u", i), e.first, e.second);
		c.transforms[at].push_back(Transform::Identity);
	}
	if (source.flip())
	{
		c.streams.clear();
		p.nullVertices.clear();
		p.nullIndices.clear();
	}
	p.done.push_back("many elements missing");
}

void runRefusals(Source& source, Context& context)
{
	Perturbed p = generatePerturbed(source, 2, true);
	if (source.chance(1, 40))
		missingElements(source, p);
	beginPerturbed(p, context);
	const Case& c = p.testCase;
	Inputs inputs(c);
	std::vector<std::string> messages;
	Model model(c);
	std::unique_ptr<ErrorCapture> capture;
	vfc::Converter::ErrorFunction standard = &vfc::Converter::stderrErrorFunction;
	if (source.chance(1, 40))
		capture.reset(new ErrorCapture);
	vfc::Converter converter = construct(source, c, messages, capture ? &standard : nullptr);
	auto check = [&](bool got, Answer expected, const char* what)
	{
		context.checked();
		if (capture)
		{
			std::string text = capture->take();
			if (!text.empty())
				messages.push_back(text);
		}
		PBT_REQUIRE(context, expected == Answer::Either || got == (expected == Answer::Yes), "%s was %s%s%s", what,
			got ? "accepted" : "refused: ", got || messages.empty() ? "" : messages[0].c_str(), "");
		if (got)
		{
			PBT_REQUIRE(context, messages.empty(), "%s succeeded and reported: %s", what, messages[0].c_str());
		}
		else
		{
			PBT_REQUIRE(context, !messages.empty(), "%s was refused without a message", what);
			for (const std::string& message : messages)
				PBT_REQUIRE(context, !message.empty(), "%s was refused with an empty message", what);
		}
		messages.clear();
	};
	PBT_REQUIRE(context, converter.isValid() == static_cast<bool>(converter), "isValid and operator bool differ");
	check(converter.isValid(), model.valid ? Answer::Yes : Answer::No, "the setup");
	bool refused = !model.valid;
	context.labelIf(!model.valid, "setup refused");
	context.labelIf(model.valid && !c.defaultMax && c.indexType != IndexType::NoIndices, "explicit maximum index");
	if (model.valid)
	{
		PBT_REQUIRE(context, converter.getVertexFormat().size() == c.output.size() &&
			converter.getIndexType() == c.indexType && converter.getPrimitiveType() == c.primitive &&
			converter.getPatchPoints() == c.patchPoints, "the setup reads back wrong");
		if (c.indexType != IndexType::NoIndices)
		{
			PBT_REQUIRE(context, converter.getMaxIndexValue() == c.limit(), "maximum index is %u instead of %u",
				converter.getMaxIndexValue(), c.limit());
		}
	}
	std::vector<const Stream*> streams;
	for (std::size_t i = 0; i < c.streams.size(); ++i)
	{
		streams.push_back(&c.streams[i]);
		Answer expected = model.add(c.streams[i], p.nullVertices[i], p.nullIndices[i]);
		bool got = callAdd(converter, c.streams[i], p.nullVertices[i] ? nullptr : inputs.vertices(i),
			p.nullIndices[i] ? nullptr : inputs.indices(i));
		check(got, expected, pbt::format("stream %zu", i).c_str());
		if (got)
			model.added(c.streams[i], i);
		else
			refused = true;
		context.labelIf(model.valid && !got, "stream refused");
	}
	bool expected = model.convert(streams);
	bool got = converter.convert();
	check(got, expected ? Answer::Yes : Answer::No, "the conversion");
	context.labelIf(model.valid && !got && !model.complete(), "conversion refused, elements missing");
	context.labelIf(model.valid && !got && model.complete(), "conversion refused, indices or restarts");
	context.labelIf(got, "converted");
	context.labelIf(static_cast<bool>(capture), "messages to the standard error");
	Result result;
	collect(result, converter, c);
	if (!got)
	{
		PBT_REQUIRE(context, result.vertexCount == 0 && result.buffers.empty(), "a refused conversion has a result");
	}
	for (const char* done : p.done)
		context.label(done);
	if (!p.done.empty() || refused)
		context.nontrivial();
}

pbt::Register c09({"C09",
	"Random setups, streams and conversions with up to two deliberate changes each: no or empty formats, invalid "
	"primitive, patch sizes, maximum indices at and around the limits, missing data, other counts, repeated or "
	"left out streams, index values at and beyond the limits, restarts, too few vertices. A model of the rules "
	"says which calls are accepted; accepted calls must report nothing, refused ones at least one message. "
	"Non-trivial: a change was made or a call refused.",
	&runRefusals, nullptr, nullptr, nullptr, nullptr, false,
	"Whether a stream that supplies nothing and has no vertices fixes the count for later streams is left open."});

// ------------------------------------------------------------------------------------------------------ C10

std::unique_ptr<vfc::Converter> otherConverter(Source& source, std::vector<std::string>& messages)
{
	// Something to assign to: invalid, empty or with a result of its own.
	auto log = [&messages](const char* message) {messages.push_back(message);};
	vfc::VertexFormat format;
	if (source.flip())
		format.appendElement("other", ElementLayout::X8, ElementType::UInt);
	std::unique_ptr<vfc::Converter> other(new vfc::Converter(format, IndexType::UInt16, PrimitiveType::PointList, 0,
		log));
	if (*other && source.flip())
	{
		static const std::uint8_t data[] = {1, 2, 3};
		other->addVertexStream(format, data, 3);
		other->convert();
	}
	return other;
}

void runHistory(Source& source, Context& context)
{
	Perturbed p = generatePerturbed(source, 3, false);
	const Case& c = p.testCase;
	context.digest(c.digest());
	Inputs inputs(c);
	std::vector<const Stream*> streams;
	for (const Stream& stream : c.streams)
		streams.push_back(&stream);
	std::vector<std::string> messages, otherMessages;
	Model model(c);
	std::unique_ptr<vfc::Converter> converter(new vfc::Converter(construct(source, c, messages)));
	std::vector<std::vector<Transform>> transforms;
	for (const Format& format : c.output)
		transforms.emplace_back(format.elements.size(), Transform::Identity);
	std::string history;
	bool wantText = context.wantText;
	auto note = [&](const std::string& text)
	{
		if (wantText)
		{
			history += text;
			context.describe(perturbedText(p) + "\ncalls: " + history);
		}
	};
	note("");
	PBT_REQUIRE(context, model.valid == converter->isValid(), "validity of the setup");

	Result result; // After the conversion.
	std::vector<std::vector<Transform>> convertedTransforms;
	unsigned refusals = 0, moves = 0;
	bool retried = false, later = false, changedAfter = false;
	auto checkMessages = [&](bool ok, const char* what)
	{
		PBT_REQUIRE(context, ok == messages.empty(), "%s: %s", what, ok ? messages[0].c_str() : "no message");
		messages.clear();
	};
	auto query = [&]()
	{
		context.checked();
		Result now;
		collect(now, *converter, c);
		if (model.converted)
		{
			now.added = result.added;
			now.converted = result.converted;
			PBT_REQUIRE(context, now == result, "the result changed");
		}
		else
		{
			PBT_REQUIRE(context, now.vertexCount == 0 && now.buffers.empty(), "a result before the conversion");
			for (const Bytes& vertices : now.vertices)
				PBT_REQUIRE(context, vertices.empty(), "vertices before the conversion");
		}
		PBT_REQUIRE(context, converter->isValid() == model.valid, "validity changed");
		PBT_REQUIRE(context, !model.valid || converter->getVertexFormat().size() == c.output.size(),
			"the format changed");
		PBT_REQUIRE(context, converter->getIndexType() == c.indexType && converter->getPrimitiveType() == c.primitive &&
			converter->getPatchPoints() == c.patchPoints, "the setup changed");
		for (std::size_t i = 0; model.valid && i < transforms.size(); ++i)
		{
			for (std::size_t j = 0; j < transforms[i].size(); ++j)
			{
				PBT_REQUIRE(context, converter->getElementTransform(i, j) == transforms[i][j], "a transform changed");
			}
		}
	};
	auto doAdd = [&](std::size_t i)
	{
		bool nullVertices = p.nullVertices[i] && source.flip();
		bool nullIndices = p.nullIndices[i] && source.flip();
		Answer expected = model.add(c.streams[i], nullVertices, nullIndices);
		bool got = callAdd(*converter, c.streams[i], nullVertices ? nullptr : inputs.vertices(i),
			nullIndices ? nullptr : inputs.indices(i));
		note(pbt::format("add %zu%s; ", i, got ? "" : " (refused)"));
		PBT_REQUIRE(context, expected == Answer::Either || got == (expected == Answer::Yes), "stream %zu was %s", i,
			got ? "accepted" : "refused");
		checkMessages(got, "add");
		if (got)
			model.added(c.streams[i], i);
		else
			++refusals;
	};
	auto doConvert = [&]()
	{
		bool expected = model.convert(streams);
		bool got = converter->convert();
		note(got ? "convert; " : "convert (refused); ");
		PBT_REQUIRE(context, got == expected, "the conversion %s", got ? "succeeded" : "failed");
		checkMessages(got, "convert");
		if (!got)
		{
			++refusals;
			if (model.converted)
				retried = true;
			else if (!model.complete())
				later = true;
			return;
		}
		model.converted = true;
		convertedTransforms = transforms;
		result = Result();
		result.added = result.converted = true;
		collect(result, *converter, c);
	};

	unsigned steps = 1 + source.small(14);
	for (unsigned step = 0; step < steps; ++step)
	{
		switch (source.weighted({6, 3, 2, 2, 2, 1}))
		{
			case 0:
				doAdd(source.below(c.streams.size()));
				break;
			case 1:
				doConvert();
				break;
			case 2:
			{
				if (!model.valid)
					break;
				std::size_t i = source.below(transforms.size());
				std::size_t j = source.below(transforms[i].size());
				auto transform = static_cast<Transform>(source.below(4));
				if (source.flip())
					converter->setElementTransform(i, j, transform);
				else
				{
					PBT_REQUIRE(context, converter->setElementTransform(c.output[i].elements[j].name, transform),
						"element not found");
				}
				changedAfter = changedAfter || model.converted;
				transforms[i][j] = transform;
				note(pbt::format("transform %zu.%zu = %d; ", i, j, static_cast<int>(transform)));
				break;
			}
			case 3:
			{
				std::unique_ptr<vfc::Converter> moved(new vfc::Converter(std::move(*converter)));
				converter = std::move(moved);
				++moves;
				note("move construct; ");
				break;
			}
			case 4:
			{
				std::unique_ptr<vfc::Converter> other = otherConverter(source, otherMessages);
				*other = std::move(*converter);
				converter = std::move(other);
				++moves;
				note("move assign; ");
				break;
			}
			default:
				PBT_REQUIRE(context, !converter->setElementTransform("no such element", Transform::Bounds),
					"a transform was set for an unknown element");
				note("unknown transform; ");
				break;
		}
		query();
	}

	// Bring it to an end: add what is left, and convert.
	for (std::size_t i = 0; i < c.streams.size() && !model.complete() && model.valid; ++i)
		doAdd(i);
	if (!model.converted)
		doConvert();
	query();
	if (model.converted)
	{
		// The accepted calls alone give the same.
		Case clean = c;
		clean.transforms = convertedTransforms;
		clean.streams.clear();
		for (std::size_t id : model.accepted)
			clean.streams.push_back(c.streams[id]);
		clean.count = model.count;
		Result expected = convert(clean);
		PBT_REQUIRE(context, expected.added && expected.converted, "the accepted calls alone fail");
		PBT_REQUIRE(context, expected == result, "the accepted calls alone give another result");
	}
	PBT_REQUIRE(context, inputs.unchanged(c), "the input data was modified");

	context.digest(history);
	context.labelIf(model.converted, "converted");
	context.labelIf(refusals > 0, "calls refused");
	context.labelIf(refusals > 0 && model.converted, "calls refused and converted");
	context.labelIf(later && model.converted, "failed for want of elements, then converted");
	context.labelIf(retried, "converted again");
	context.labelIf(changedAfter, "transform set after the conversion");
	context.labelIf(moves > 0, "moved");
	context.labelIf(moves > 0 && model.converted, "moved and converted");
	if (model.converted && (refusals > 0 || moves > 0))
		context.nontrivial();
}

pbt::Register c10({"C10",
	"Random histories of up to 15 calls on one converter: add streams (fitting ones and ones to refuse, repeatedly), "
	"convert (early, repeatedly), set transforms (also after the conversion), move construct, move assign over "
	"another converter, query; then the missing streams and a conversion. Each answer must be the model's, the "
	"state must read back after every call, and the result must equal that of the accepted calls alone. "
	"Non-trivial: converted, with a refused call or a move before or after.",
	&runHistory, nullptr, nullptr, nullptr, nullptr, false,
	"Nothing is expected of a converter that was moved from but that it can be destroyed and assigned to.\n"
	"Bounds are read after successful conversions only."});

// ------------------------------------------------------------------------------------------------------ C12

void runMemory(Source& source, Context& context)
{
	Perturbed p = generatePerturbed(source, 4, true);
	Case& c = p.testCase;
	// Wild indices.
	if (source.chance(1, 3))
	{
		for (Stream& stream : c.streams)
		{
			for (std::uint32_t& index : stream.indices)
			{
				if (source.chance(1, 10))
					index = stream.indexType == IndexType::UInt16 ? static_cast<std::uint32_t>(source.below(0x10000)) :
						static_cast<std::uint32_t>(source.bits64());
			}
		}
	}
	// Wild bytes.
	if (source.chance(1, 3))
	{
		std::uint64_t filler = source.bits64();
		for (Stream& stream : c.streams)
		{
			for (std::uint8_t& byte : stream.data)
				byte = static_cast<std::uint8_t>(filler = pbt::mix64(filler));
		}
	}
	// Many elements.
	if (source.chance(1, 20) && !c.streams.empty())
	{
		Stream& stream = c.streams[source.below(c.streams.size())];
		Bytes old = stream.data;
		std::uint32_t oldStride = stream.format.stride;
		unsigned more = static_cast<unsigned>(source.range(10, 60));
		for (unsigned i = 0; i < more; ++i)
		{
			auto e = source.pick(ref::validElements());
			stream.format.add(pbt::format("filler%u", i), e.first, e.second);
		}
		stream.data.assign(std::size_t(stream.vertexCount)*stream.format.stride, 0x7f);
		for (std::uint32_t v = 0; v < stream.vertexCount; ++v)
		{
			std::copy(old.begin() + static_cast<std::ptrdiff_t>(std::size_t(v)*oldStride),
				old.begin() + static_cast<std::ptrdiff_t>(std::size_t(v + 1)*oldStride),
				stream.data.begin() + static_cast<std::ptrdiff_t>(std::size_t(v)*stream.format.stride));
		}
	}
	beginPerturbed(p, context);
	unsigned misalignment = static_cast<unsigned>(source.below(8));
	Inputs inputs(c, misalignment);
	std::vector<std::string> messages;
	vfc::Converter::ErrorFunction none;
	bool silent = source.chance(1, 6);
	std::unique_ptr<vfc::Converter> converter(new vfc::Converter(construct(source, c, messages,
		silent ? &none : nullptr)));
	bool converted = false;
	unsigned accepted = 0;
	Result result;
	auto query = [&]()
	{
		collect(result, *converter, c);
		vfc::VertexValue low, high;
		converter->getVertexElementBounds(low, high, "position");
		converter->getElementTransform("uv");
		converter->setElementTransform("no such element", Transform::Identity);
	};
	for (std::size_t i = 0; i < c.streams.size(); ++i)
	{
		accepted += callAdd(*converter, c.streams[i], p.nullVertices[i] ? nullptr : inputs.vertices(i),
			p.nullIndices[i] ? nullptr : inputs.indices(i));
		if (source.chance(1, 6))
			converted = converter->convert() || converted;
		if (source.chance(1, 6))
			converter.reset(new vfc::Converter(std::move(*converter)));
		if (source.chance(1, 6))
			query();
	}
	converted = converter->convert() || converted;
	if (source.chance(1, 3))
		converted = converter->convert() || converted;
	query();
	PBT_REQUIRE(context, inputs.unchanged(c), "the input data was modified");
	// What can be read must be all there.
	if (converted)
	{
		for (std::size_t i = 0; i < result.vertices.size(); ++i)
		{
			PBT_REQUIRE(context, result.vertices[i].size() == std::size_t(result.vertexCount)*c.output[i].stride,
				"output stream %zu has %zu bytes for %u vertices", i, result.vertices[i].size(), result.vertexCount);
		}
		for (const Buffer& buffer : result.buffers)
		{
			for (std::uint32_t index : buffer.indices)
			{
				context.checked();
				if (!ref::isStrip(c.primitive) || index != ref::restartValue(c.indexType))
				{
					PBT_REQUIRE(context, buffer.baseVertex + std::int64_t(index) < std::int64_t(result.vertexCount),
						"index %u with base vertex %lld is outside %u vertices", index,
						static_cast<long long>(buffer.baseVertex), result.vertexCount);
				}
			}
		}
	}
	converter.reset();
	context.labelIf(misalignment != 0, "misaligned vertex data");
	context.labelIf(silent, "no function for messages");
	context.labelIf(converted, "converted");
	context.labelIf(!converted, "not converted");
	context.labelIf(accepted < c.streams.size(), "streams refused");
	for (const char* done : p.done)
		context.label(done);
	if (accepted > 0 && (misalignment != 0 || !p.done.empty()))
		context.nontrivial();
}

pbt::Register c12({"C12",
	"Random histories as for C09 and C10 with up to four deliberate faults, arbitrary index values and data bytes, "
	"wide formats and vertex data at every alignment, in exactly sized heap blocks, under the address and undefined "
	"behaviour sanitizers with a limit of 25 s CPU time a case. Input memory must be unchanged and every index and "
	"vertex of a result readable. Non-trivial: a stream was accepted, with misaligned data or a fault.",
	&runMemory, nullptr, nullptr, nullptr, nullptr, false,
	"Index data is naturally aligned, vertex and index data are as long as the counts say."});

} // namespace
