// Properties of the tool's parts, in process: T05 to T09.
#include "json.h"
#include "mutate.h"
#include "ref.h"

#include "Base64.h"
#include "ConfigFile.h"
#include "Path.h"
#include "ResultFile.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>

#include <unistd.h>

using config::Config;
using namespace mutate;
using pbt::Context;
using pbt::Source;
using ref::ElementLayout;
using ref::ElementType;
using ref::IndexType;
using ref::PrimitiveType;

namespace
{

// A string in exactly sized memory.
class Exact
{
public:
	explicit Exact(const std::string& text) : m_memory(new char[text.size() + 1])
	{
		std::memcpy(m_memory.get(), text.c_str(), text.size() + 1);
	}
	const char* get() const {return m_memory.get();}

private:
	std::unique_ptr<char[]> m_memory;
};

std::string printable(const std::string& text)
{
	std::string out;
	for (unsigned char c : text)
	{
		if (c == '\n' || c == '\t' || (c >= 0x20 && c < 0x7f))
			out += static_cast<char>(c);
		else
			out += pbt::format("\\x%02x", c);
	}
	return out;
}

std::string randomName(Source& source)
{
	static const char* const names[] = {"position", "normal", "texCoord", "a", "b", "Position", "positions", "", "name",
		"color"};
	return source.weighted({4, 1}) == 0 ? source.pick(names) : randomText(source, 12);
}

config::Format randomFormat(Source& source, std::vector<std::string>& taken, unsigned maxElements)
{
	config::Format format;
	unsigned count = 1 + source.small(maxElements - 1);
	for (unsigned i = 0; i < count; ++i)
	{
		auto element = source.pick(ref::validElements());
		std::string name = randomName(source);
		while (std::find(taken.begin(), taken.end(), name) != taken.end())
			name += static_cast<char>('0' + taken.size() % 10);
		taken.push_back(name);
		format.push_back(config::Element{name, element.first, element.second});
	}
	return format;
}

IndexType randomIndexType(Source& source)
{
	static const IndexType indexTypes[] = {IndexType::NoIndices, IndexType::UInt16, IndexType::UInt32};
	return source.pick(indexTypes);
}

std::string randomData(Source& source)
{
	switch (source.weighted({3, 2, 2, 1}))
	{
		case 0:
			return "data.dat";
		case 1:
			return "base64:AAAA";
		case 2:
			return randomText(source, 20);
		default:
			return std::string(source.below(9000), 'A');
	}
}

Config randomConfig(Source& source)
{
	Config result;
	std::vector<std::string> taken;
	// Now and then there are many of something.
	unsigned many = source.chance(1, 25) ? static_cast<unsigned>(source.range(1, 4)) : 0;
	unsigned outputs = 1 + source.small(many == 1 ? 20 : 3);
	for (unsigned i = 0; i < outputs; ++i)
		result.output.push_back(randomFormat(source, taken, many == 2 ? 60 : 4));
	result.indexType = randomIndexType(source);
	result.primitive = source.chance(1, 3) ? PrimitiveType::TriangleList : source.pick(ref::primitives()).type;
	if (source.chance(1, 6))
		result.primitive = PrimitiveType::PatchList;
	if (result.primitive == PrimitiveType::PatchList)
	{
		result.patchPoints = 1 + static_cast<std::uint32_t>(source.below(40));
		if (source.chance(1, 4))
			result.patchPoints = 0x7FFFFFFF - static_cast<std::uint32_t>(source.below(3));
	}
	unsigned streams = 1 + source.small(many == 3 ? 40 : 3);
	for (unsigned i = 0; i < streams; ++i)
	{
		config::Stream stream;
		std::vector<std::string> names;
		stream.format = randomFormat(source, names, many == 2 ? 60 : 4);
		stream.indexType = randomIndexType(source);
		stream.vertexData = randomData(source);
		if (stream.indexType != IndexType::NoIndices)
			stream.indexData = randomData(source);
		result.streams.push_back(stream);
	}
	unsigned transforms = source.small(many == 4 ? 200 : 4);
	for (unsigned i = 0; i < transforms; ++i)
	{
		std::string name = source.chance(3, 4) ? source.pick(taken) : randomName(source);
		if (!result.transforms.empty() && source.chance(1, 4))
			name = source.pick(result.transforms).first;
		result.transforms.emplace_back(name, static_cast<int>(source.below(4)));
	}
	return result;
}

void checkFormat(const vfc::VertexFormat& found, const config::Format& expected, const std::string& where,
	Context& context)
{
	PBT_REQUIRE(context, found.size() == expected.size(), "%s has %zu elements instead of %zu", where.c_str(),
		found.size(), expected.size());
	std::uint32_t offset = 0;
	for (std::size_t i = 0; i < expected.size(); ++i)
	{
		const vfc::VertexElement& element = found[i];
		PBT_REQUIRE(context, element.name == expected[i].name && element.layout == expected[i].layout &&
			element.type == expected[i].type && element.offset == offset,
			"%s, element %zu: '%s' %d %d at %u instead of '%s' %d %d at %u", where.c_str(), i,
			printable(element.name).c_str(), static_cast<int>(element.layout), static_cast<int>(element.type),
			element.offset, printable(expected[i].name).c_str(), static_cast<int>(expected[i].layout),
			static_cast<int>(expected[i].type), offset);
		offset += ref::layoutInfo(expected[i].layout).size;
	}
	PBT_REQUIRE(context, found.stride() == offset, "%s has stride %u instead of %u", where.c_str(), found.stride(),
		offset);
}

void checkConfig(const ConfigFile& file, const Config& expected, Context& context)
{
	PBT_REQUIRE(context, file.getVertexFormat().size() == expected.output.size(), "%zu formats instead of %zu",
		file.getVertexFormat().size(), expected.output.size());
	for (std::size_t i = 0; i < expected.output.size(); ++i)
		checkFormat(file.getVertexFormat()[i], expected.output[i], pbt::format("output format %zu", i), context);
	PBT_REQUIRE(context, file.getIndexType() == expected.indexType, "index type %d instead of %d",
		static_cast<int>(file.getIndexType()), static_cast<int>(expected.indexType));
	PBT_REQUIRE(context, file.getPrimitiveType() == expected.primitive, "primitive type %d instead of %d",
		static_cast<int>(file.getPrimitiveType()), static_cast<int>(expected.primitive));
	std::uint32_t patchPoints = expected.primitive == PrimitiveType::PatchList ? expected.patchPoints : 0;
	PBT_REQUIRE(context, file.getPatchPoints() == patchPoints, "%u patch points instead of %u", file.getPatchPoints(),
		patchPoints);
	PBT_REQUIRE(context, file.getVertexStreams().size() == expected.streams.size(), "%zu streams instead of %zu",
		file.getVertexStreams().size(), expected.streams.size());
	for (std::size_t i = 0; i < expected.streams.size(); ++i)
	{
		const ConfigFile::VertexStream& found = file.getVertexStreams()[i];
		const config::Stream& stream = expected.streams[i];
		checkFormat(found.vertexFormat, stream.format, pbt::format("the format of stream %zu", i), context);
		PBT_REQUIRE(context, found.indexType == stream.indexType, "stream %zu: index type %d instead of %d", i,
			static_cast<int>(found.indexType), static_cast<int>(stream.indexType));
		PBT_REQUIRE(context, found.vertexData == stream.vertexData, "stream %zu: vertex data '%s' instead of '%s'", i,
			printable(found.vertexData).c_str(), printable(stream.vertexData).c_str());
		PBT_REQUIRE(context, stream.indexType == IndexType::NoIndices || found.indexData == stream.indexData,
			"stream %zu: index data '%s' instead of '%s'", i, printable(found.indexData).c_str(),
			printable(stream.indexData).c_str());
	}
	PBT_REQUIRE(context, file.getTransforms().size() == expected.transforms.size(), "%zu transforms instead of %zu",
		file.getTransforms().size(), expected.transforms.size());
	for (std::size_t i = 0; i < expected.transforms.size(); ++i)
	{
		PBT_REQUIRE(context, file.getTransforms()[i].first == expected.transforms[i].first &&
			static_cast<int>(file.getTransforms()[i].second) == expected.transforms[i].second,
			"transform %zu is %d of '%s'", i, static_cast<int>(file.getTransforms()[i].second),
			printable(file.getTransforms()[i].first).c_str());
	}
	context.checked(6 + expected.output.size() + 4*expected.streams.size() + expected.transforms.size());
}

enum class Route {Text, Stream, File};

bool load(ConfigFile& file, const std::string& text, Route route, const std::string& name,
	std::vector<std::string>& messages)
{
	vfc::Converter::ErrorFunction errorFunction = [&messages](const char* message)
	{
		messages.push_back(message ? message : "(null)");
	};
	switch (route)
	{
		case Route::Text:
			return file.load(Exact(text).get(), name.c_str(), errorFunction);
		case Route::Stream:
		{
			std::istringstream stream(text);
			return file.load(stream, name.c_str(), errorFunction);
		}
		case Route::File:
		{
			std::ofstream stream(name, std::ios::binary | std::ios::trunc);
			stream.write(text.data(), static_cast<std::streamsize>(text.size()));
			stream.close();
			bool result = file.load(name.c_str(), errorFunction);
			unlink(name.c_str());
			return result;
		}
	}
	return false;
}

Route chooseRoute(Source& source, const Context& context, std::string& name)
{
	static const char* const names[] = {"file.json", "stdin", "some dir/a.b.json", "/x/y", "%s%n"};
	name = source.pick(names);
	switch (source.weighted({5, 3, 1}))
	{
		case 0:
			return Route::Text;
		case 1:
			return Route::Stream;
		default:
			if (context.options.scratch.empty())
				return Route::Stream;
			name = context.options.scratch + "/config.json";
			return Route::File;
	}
}

// -------------------------------------------------------------------------------------------------- T05

void runValid(Source& source, Context& context)
{
	std::string name;
	Route route = chooseRoute(source, context, name);
	Config expected = randomConfig(source);
	std::string text = json::write(config::tree(expected, &source), &source);
	context.digest(text);
	context.describe(printable(text));

	// The harness agrees with itself about the text.
	json::ParseResult parsed = json::parse(text);
	Config judged;
	if (!parsed.valid || config::judge(parsed.value, judged) != config::Verdict::Valid)
		context.fail("harness: the generated text isn't valid");

	ConfigFile file;
	std::vector<std::string> messages;
	// Whatever was loaded into the same object before, completely or in part, is gone.
	std::string history;
	for (unsigned i = source.chance(1, 3) ? 1 + source.small(2) : 0; i > 0; --i)
	{
		json::Value earlier = config::tree(randomConfig(source), &source);
		bool changed = source.flip();
		if (changed)
			mutateTree(source, earlier);
		std::string earlierText = json::write(earlier, &source);
		std::string earlierName;
		Route earlierRoute = chooseRoute(source, context, earlierName);
		bool loaded = load(file, earlierText, earlierRoute, earlierName, messages);
		PBT_REQUIRE(context, changed || loaded, "refused: %s", messages.empty() ? "(no message)" : messages[0].c_str());
		history += "after loading (" + std::string(loaded ? "accepted" : "refused") + "):\n" + printable(earlierText) + "\n";
		messages.clear();
		context.digest(earlierText);
		context.label(loaded ? "after another configuration" : "after a refused configuration");
	}
	context.describe(history + printable(text));
	bool loaded = load(file, text, route, name, messages);
	PBT_REQUIRE(context, loaded, "refused: %s", messages.empty() ? "(no message)" : messages[0].c_str());
	PBT_REQUIRE(context, messages.empty(), "accepted with a message: %s", messages[0].c_str());
	checkConfig(file, expected, context);
	checkConfig(file, judged, context);
	context.nontrivial();
	context.label(route == Route::Text ? "from text" : route == Route::Stream ? "from a stream" : "from a file");
	context.labelIf(expected.primitive == PrimitiveType::PatchList, "patches");
	context.labelIf(!expected.transforms.empty(), "transforms");
	context.labelIf(expected.output.size() > 1, "several output formats");
	context.labelIf(text.find("\\u") != std::string::npos, "escapes");
	context.labelIf(text.size() > 4096, "longer than a read buffer");
}

pbt::Property validProperty()
{
	pbt::Property property = {"T05",
		"Random configurations (1-4 formats of 1-4 elements, 1-4 streams, every index and primitive type, patch points, "
		"transforms, names and data strings with any characters) written as JSON in random ways: member order, white "
		"space, escapes, letter case, XYZW or RGBA, optional members left out, null or stated, members that mean nothing. "
		"Loaded from text, a stream or a file, in a third of the cases into an object that loaded 1-3 other configurations "
		"(accepted or refused) before, and compared with the configuration, member by member. Every case is "
		"non-trivial. Distinct by the text.",
		&runValid};
	property.spawns = true;
	property.assumptions = "Names and data strings contain no NUL character and are valid UTF-8.\n"
		"Objects don't repeat the members that matter, numbers fit in a double.";
	return property;
}

pbt::Register t05(validProperty());

// -------------------------------------------------------------------------------------------------- T06

std::pair<unsigned, unsigned> lineColumn(const std::string& text, std::size_t offset)
{
	std::pair<unsigned, unsigned> result(1, 1);
	for (std::size_t i = 0; i < offset && i < text.size(); ++i)
	{
		if (text[i] == '\n')
		{
			++result.first;
			result.second = 1;
		}
		else
			++result.second;
	}
	return result;
}

void requireLocation(const std::string& message, const std::string& name, const std::string& text, std::size_t from,
	std::size_t to, Context& context)
{
	std::string tried;
	auto position = lineColumn(text, from);
	for (std::size_t offset = from; offset <= to; ++offset)
	{
		std::string prefix = pbt::format("%s:%u:%u:", name.c_str(), position.first, position.second);
		if (message.compare(0, prefix.size(), prefix) == 0)
			return;
		if (offset == from || offset == to)
			tried += " " + prefix;
		if (offset < text.size() && text[offset] == '\n')
		{
			++position.first;
			position.second = 1;
		}
		else if (offset < text.size())
			++position.second;
	}
	context.fail("the message '" + message + "' doesn't start with a position from" + tried);
}

void checkText(const std::string& text, Route route, const std::string& name, Context& context)
{
	std::size_t nul = text.find('\0');
	// A C string ends there; in a stream it is a mistake.
	std::string readable = text.substr(0, nul);
	bool nulMistake = nul != std::string::npos && route != Route::Text;
	json::ParseResult parsed = json::parse(readable);
	Config expected;
	config::Verdict verdict = config::Verdict::Invalid;
	bool syntax = !parsed.valid;
	if (parsed.valid)
		verdict = config::judge(parsed.value, expected);
	bool open = parsed.open || verdict == config::Verdict::Open;

	ConfigFile file;
	std::vector<std::string> messages;
	bool loaded = load(file, text, route, name, messages);
	PBT_REQUIRE(context, messages.size() == (loaded ? 0U : 1U), "loading returned %d with %zu messages%s%s", loaded,
		messages.size(), messages.empty() ? "" : ", the first: ", messages.empty() ? "" : messages[0].c_str());
	PBT_REQUIRE(context, loaded || messages[0].find(name) != std::string::npos, "the message doesn't name the file: %s",
		messages[0].c_str());
	context.checked(2);
	if (nulMistake)
	{
		PBT_REQUIRE(context, !loaded, "text after a NUL character is ignored");
		context.label("NUL character");
		return;
	}
	if (open)
	{
		context.label("left open");
		return;
	}
	if (verdict == config::Verdict::Valid)
	{
		PBT_REQUIRE(context, loaded, "a valid configuration is refused: %s", messages[0].c_str());
		checkConfig(file, expected, context);
		context.label("still valid");
		return;
	}
	PBT_REQUIRE(context, !loaded, "%s", syntax ? "accepted though it isn't JSON" : "accepted though it is wrong");
	context.checked();
	if (syntax)
	{
		std::size_t from = parsed.tokenStart > 0 ? parsed.tokenStart - 1 : 0;
		requireLocation(messages[0], name, readable, from, std::max(parsed.errorOffset, from) + 1, context);
		context.checked();
		context.label("not JSON");
	}
	else
		context.label("wrong configuration");
	context.nontrivial();
}

void runInvalid(Source& source, Context& context)
{
	std::string name;
	Route route = chooseRoute(source, context, name);
	std::string text;
	switch (source.weighted({10, 5, 2, 1, 1}))
	{
		case 0:
		{
			json::Value tree = config::tree(randomConfig(source), source.flip() ? &source : nullptr);
			unsigned changes = 1 + source.small(2);
			for (unsigned i = 0; i < changes; ++i)
				mutateTree(source, tree);
			text = json::write(tree, &source);
			break;
		}
		case 1:
			text = json::write(config::tree(randomConfig(source), &source), &source);
			mutateText(source, text);
			break;
		case 2:
			text = randomJson(source);
			break;
		case 3:
		{
			unsigned length = source.small(60);
			for (unsigned i = 0; i < length; ++i)
				text += static_cast<char>(source.below(256));
			break;
		}
		default:
		{
			// Nested deeply beside or instead of what matters.
			auto depth = static_cast<std::size_t>(1) << (source.chance(1, 24) ? source.below(18) : source.below(13));
			bool closed = source.flip();
			bool objects = source.flip();
			std::string deep;
			for (std::size_t i = 0; i < depth; ++i)
				deep += objects ? "{\"a\":" : "[";
			deep += "1";
			if (closed)
			{
				for (std::size_t i = 0; i < depth; ++i)
					deep += objects ? '}' : ']';
			}
			Config valid = randomConfig(source);
			text = config::text(valid);
			bool inside = source.flip();
			if (inside)
				text = text.substr(0, 1) + "\"deep\":" + deep + "," + text.substr(1);
			else
				text = deep;
			context.digest(text);
			context.describe(pbt::format("%zu nested %s, %s, %s", depth, objects ? "objects" : "arrays",
				closed ? "closed" : "not closed", inside ? "in a valid configuration" : "alone"));
			ConfigFile file;
			std::vector<std::string> messages;
			bool loaded = load(file, text, route, name, messages);
			PBT_REQUIRE(context, loaded == (closed && inside), "loading returned %d", loaded);
			PBT_REQUIRE(context, messages.size() == (loaded ? 0U : 1U), "%zu messages", messages.size());
			if (loaded)
				checkConfig(file, valid, context);
			context.label("deeply nested");
			context.nontrivial();
			return;
		}
	}
	context.digest(text);
	context.describe(printable(text));
	checkText(text, route, name, context);
}

void runMissingFile(std::uint64_t index, Context& context)
{
	context.digest(index);
	std::string name = context.options.scratch + (index == 0 ? "/missing.json" : index == 1 ? "" : "/no/such/dir.json");
	context.describe(name);
	ConfigFile file;
	std::vector<std::string> messages;
	bool loaded = file.load(name.c_str(), [&messages](const char* message) {messages.push_back(message);});
	PBT_REQUIRE(context, !loaded && messages.size() == 1 && messages[0].find(name) != std::string::npos,
		"loading %s returned %d with %zu messages", name.c_str(), loaded, messages.size());
	context.nontrivial();
	context.label("unreadable file");
}

pbt::Property invalidProperty()
{
	pbt::Property property = {"T06",
		"Random configurations as for T05 with 1-3 changes to the tree anywhere (values replaced by other kinds and wrong "
		"names, members and items removed, repeated, exchanged) or to the text, token and byte soup, and nesting to depth "
		"131072; loaded from text, a stream or a file. An independent JSON reader and validator decides whether the text "
		"must be accepted and as what; refusals must give one message with the file name, syntax errors a position inside "
		"the offending token. Non-trivial: the text must be refused, or is nested deeply. Distinct by the text.",
		&runInvalid};
	property.enumCount = [](const pbt::Options& options) -> std::uint64_t {return options.scratch.empty() ? 0 : 3;};
	property.runEnum = &runMissingFile;
	property.enumRule = "files that don't exist or can't be read";
	property.spawns = true;
	property.assumptions = "Left open: repeated members, unpaired surrogates, numbers or exponents too large for a double, NUL in strings, "
		"null as transforms, whole patch counts above 2^31-1 or written with a fraction or exponent.";
	return property;
}

pbt::Register t06(invalidProperty());

// -------------------------------------------------------------------------------------------------- T07

void checkEncode(const std::vector<std::uint8_t>& data, Context& context)
{
	std::unique_ptr<std::uint8_t[]> memory(new std::uint8_t[data.size()]);
	std::copy(data.begin(), data.end(), memory.get());
	std::string encoded = base64::encode(memory.get(), data.size());
	std::string expected = json::base64Encode(data);
	PBT_REQUIRE(context, encoded == expected, "%s is encoded as '%s' instead of '%s'",
		ref::hex(data.data(), data.size()).c_str(), printable(encoded).c_str(), expected.c_str());
	std::vector<std::uint8_t> decoded = {1, 2, 3};
	PBT_REQUIRE(context, base64::decode(decoded, Exact(encoded).get()), "'%s' isn't decoded", encoded.c_str());
	PBT_REQUIRE(context, decoded.size() == data.size() + 3 && decoded[0] == 1 && decoded[1] == 2 && decoded[2] == 3 &&
		std::equal(data.begin(), data.end(), decoded.begin() + 3), "%s comes back as %s",
		ref::hex(data.data(), data.size()).c_str(), ref::hex(decoded.data(), decoded.size()).c_str());
	context.checked(3);
}

void checkDecode(const std::string& text, Context& context)
{
	std::vector<std::uint8_t> expected, decoded;
	int valid = json::base64Decode(expected, text);
	bool found = base64::decode(decoded, Exact(text).get());
	PBT_REQUIRE(context, valid < 0 || found == (valid == 1), "'%s' is %s", printable(text).c_str(),
		found ? "accepted" : "refused");
	PBT_REQUIRE(context, !found || decoded == expected, "'%s' decodes to %s instead of %s", printable(text).c_str(),
		ref::hex(decoded.data(), decoded.size()).c_str(), ref::hex(expected.data(), expected.size()).c_str());
	context.checked(2);
}

void runBase64(Source& source, Context& context)
{
	std::vector<std::uint8_t> data;
	unsigned length = source.chance(1, 50) ? static_cast<unsigned>(source.below(5000)) : source.small(40);
	if (length > 200)
	{
		std::uint64_t seed = source.bits64();
		for (unsigned i = 0; i < length; ++i)
			data.push_back(static_cast<std::uint8_t>(pbt::mix64(seed + i)));
	}
	else
	{
		for (unsigned i = 0; i < length; ++i)
			data.push_back(static_cast<std::uint8_t>(source.below(256)));
	}
	if (source.flip())
	{
		context.digest(1);
		context.digest(data.data(), data.size());
		context.describe(ref::hex(data.data(), data.size()));
		checkEncode(data, context);
		context.label("encoded and decoded");
		if (data.size() > 2)
			context.nontrivial();
		return;
	}
	std::string text = json::base64Encode(data);
	unsigned changes = 1 + source.small(3);
	for (unsigned i = 0; i < changes; ++i)
	{
		auto pos = source.below(text.size() + 1);
		static const char letters[] = "=AZaz09+/-_ \n\r\t.=\x80\xff";
		switch (source.below(5))
		{
			case 0:
				text.insert(pos, 1, letters[source.below(sizeof(letters) - 1)]);
				break;
			case 1:
				text.erase(pos, 1 + source.below(4));
				break;
			case 2:
				if (pos < text.size())
					text[pos] = letters[source.below(sizeof(letters) - 1)];
				break;
			case 3:
				if (pos < text.size())
					text[pos] = static_cast<char>(1 + source.below(255));
				break;
			default:
				text += source.flip() ? "====" : "AA==";
				break;
		}
	}
	context.digest(2);
	context.digest(text);
	context.describe("'" + printable(text) + "'");
	checkDecode(text, context);
	std::vector<std::uint8_t> ignored;
	int valid = json::base64Decode(ignored, text);
	context.label(valid == 1 ? "standard base64" : valid == 0 ? "not base64" : "unused bits set");
	if (text.size() > 2)
		context.nontrivial();
}

const std::string base64Alphabet("\x00" "AZaz09+/=-\x80", 12);

std::uint64_t base64EnumCount(const pbt::Options&)
{
	return 257 + 12*12 + 1;
}

void runBase64Enum(std::uint64_t index, Context& context)
{
	context.digest(index);
	context.nontrivial();
	if (index < 256)
	{
		context.describe(pbt::format("all byte strings of up to two bytes from %02x, three in part", static_cast<unsigned>(index)));
		auto first = static_cast<std::uint8_t>(index);
		checkEncode({first}, context);
		for (unsigned second = 0; second < 256; ++second)
		{
			checkEncode({first, static_cast<std::uint8_t>(second)}, context);
			for (unsigned third = second % 5; third < 256; third += 5)
				checkEncode({first, static_cast<std::uint8_t>(second), static_cast<std::uint8_t>(third)}, context);
		}
		// Every character at every place of a quartet.
		for (unsigned place = 0; place < 4 && index > 0; ++place)
		{
			for (const char* base : {"AAAA", "zz+/", "QQ==", "QUE="})
			{
				std::string text = base;
				text[place] = static_cast<char>(index);
				checkDecode(text, context);
				checkDecode("AAAA" + text, context);
				checkDecode(text + "AAAA", context);
			}
		}
		return;
	}
	if (index == 256)
	{
		context.describe("nothing");
		std::vector<std::uint8_t> decoded = {5};
		PBT_REQUIRE(context, !base64::decode(decoded, nullptr) && decoded.size() == 1, "missing text decoded");
		PBT_REQUIRE(context, base64::decode(decoded, "") && decoded.size() == 1, "empty text gives data");
		PBT_REQUIRE(context, base64::encode(nullptr, 0).empty(), "nothing gives text");
		checkEncode({}, context);
		return;
	}
	// All strings of up to six (seven) of some characters, by the first two.
	index -= 257;
	context.describe(pbt::format("strings of a small alphabet, number %u", static_cast<unsigned>(index)));
	std::size_t letters = base64Alphabet.size();
	if (index >= letters*letters)
		return;
	std::string text(context.options.thorough ? 7 : 5, '\0');
	text[0] = base64Alphabet[index/letters];
	text[1] = base64Alphabet[index % letters];
	std::uint64_t rest = 1;
	for (std::size_t i = 2; i < text.size(); ++i)
		rest *= letters;
	for (std::uint64_t number = 0; number < rest; ++number)
	{
		std::uint64_t value = number;
		for (std::size_t i = 2; i < text.size(); ++i)
		{
			text[i] = base64Alphabet[value % letters];
			value /= letters;
		}
		// Strings with NUL only once, as the shorter ones.
		std::size_t end = text.find('\0');
		if (end != std::string::npos && text.find_first_not_of('\0', end) != std::string::npos)
			continue;
		checkDecode(text.substr(0, end), context);
	}
}

pbt::Property base64Property()
{
	pbt::Property property = {"T07",
		"Random byte strings encoded, compared with an independent encoder and decoded behind other data; random "
		"modifications of base64 text decoded in exactly sized memory and compared with an independent strict decoder. "
		"Non-trivial: more than two bytes or characters. Distinct by the bytes or text.",
		&runBase64};
	property.enumCount = &base64EnumCount;
	property.runEnum = &runBase64Enum;
	property.enumRule = "all strings of one and two bytes and a fifth of those of three; every character at each place of four "
		"quartets, alone and beside another; all strings of up to 5 (thorough: 7) of 11 characters";
	property.assumptions = "Text whose unused last bits aren't zero may be refused or read without them.";
	return property;
}

pbt::Register t07(base64Property());

// -------------------------------------------------------------------------------------------------- T08

std::string normalized(const std::string& path)
{
	std::string out;
	for (char c : path)
	{
		if (c != '/' || out.empty() || out.back() != '/')
			out += c;
	}
	if (out.size() > 1 && out.back() == '/')
		out.pop_back();
	return out;
}

void checkPath(const std::string& text, Context& context)
{
	std::size_t last = text.rfind('/');
	bool absolute = !text.empty() && text[0] == '/';
	std::string parent = last == std::string::npos ? "" : last == 0 ? "/" : text.substr(0, last);
	std::string name = last == std::string::npos ? text : text.substr(last + 1);
	PBT_REQUIRE(context, path::isAbsolute(text) == absolute, "'%s' is%s absolute", printable(text).c_str(),
		absolute ? "n't" : "");
	PBT_REQUIRE(context, path::getParentDirectory(text) == parent, "the parent of '%s' is '%s' instead of '%s'",
		printable(text).c_str(), printable(path::getParentDirectory(text)).c_str(), printable(parent).c_str());
	PBT_REQUIRE(context, path::getFileName(text) == name, "the name in '%s' is '%s' instead of '%s'",
		printable(text).c_str(), printable(path::getFileName(text)).c_str(), printable(name).c_str());
	std::string joined = path::join(path::getParentDirectory(text), path::getFileName(text));
	PBT_REQUIRE(context, normalized(joined) == normalized(text), "'%s' is put together again as '%s'",
		printable(text).c_str(), printable(joined).c_str());
	context.checked(4);
}

void checkJoin(const std::string& left, const std::string& right, Context& context)
{
	std::string expected;
	if (left.empty() || (!right.empty() && right[0] == '/'))
		expected = right;
	else if (right.empty())
		expected = left;
	else
		expected = left + (left.back() == '/' ? "" : "/") + right;
	std::string found = path::join(left, right);
	PBT_REQUIRE(context, found == expected, "'%s' and '%s' are joined as '%s' instead of '%s'", printable(left).c_str(),
		printable(right).c_str(), printable(found).c_str(), printable(expected).c_str());
	context.checked();
}

std::string randomPath(Source& source)
{
	std::string text;
	unsigned parts = source.small(6);
	static const char* const names[] = {"a", "dir", "..", ".", "", "file.dat", "/", "//", "C:", "\\", "a b", "\xc3\xa9",
		"long name with spaces and more than thirty characters"};
	for (unsigned i = 0; i < parts; ++i)
	{
		if (source.chance(1, 4))
			text += static_cast<char>(1 + source.below(255));
		else
			text += source.pick(names);
		if (source.flip())
			text += '/';
	}
	return text;
}

void runPaths(Source& source, Context& context)
{
	std::string left = randomPath(source), right = randomPath(source);
	context.digest(left);
	context.digest(right);
	context.describe("'" + printable(left) + "' and '" + printable(right) + "'");
	checkPath(left, context);
	checkPath(right, context);
	checkJoin(left, right, context);
	// Joining in steps.
	if (!right.empty() && right[0] != '/' && !left.empty())
	{
		std::string third = randomPath(source);
		PBT_REQUIRE(context, path::join(path::join(left, right), third) == path::join(left, path::join(right, third)) ||
			(!third.empty() && third[0] == '/'), "joining '%s', '%s', '%s' depends on the order", printable(left).c_str(),
			printable(right).c_str(), printable(third).c_str());
		context.checked();
	}
	if (!left.empty() && !right.empty())
		context.nontrivial();
	context.labelIf(!right.empty() && right[0] == '/', "absolute second path");
	context.labelIf(left.find("//") != std::string::npos, "repeated separators");
}

std::string numbered(std::uint64_t number, unsigned& length)
{
	static const char letters[] = "/.ab\\:";
	// All strings by length.
	std::uint64_t count = 1;
	length = 0;
	while (number >= count)
	{
		number -= count;
		count *= 6;
		++length;
	}
	std::string text;
	for (unsigned i = 0; i < length; ++i)
	{
		text += letters[number % 6];
		number /= 6;
	}
	return text;
}

void runPathsEnum(std::uint64_t index, Context& context)
{
	unsigned length;
	std::string left = numbered(index, length);
	context.digest(left);
	context.describe("'" + left + "' with all shorter strings");
	checkPath(left, context);
	for (std::uint64_t i = 0; i < (length <= 4 ? 1555U : 259U); ++i)
	{
		unsigned ignored;
		std::string right = numbered(i, ignored);
		checkJoin(left, right, context);
	}
	if (length > 0)
		context.nontrivial();
}

pbt::Property pathProperty()
{
	pbt::Property property = {"T08",
		"Random pairs of paths of up to 7 parts (names, dots, repeated and missing separators, any bytes) compared with the "
		"definition; splitting and joining again names the same file; joining three relative parts is associative. "
		"Non-trivial: neither path is empty. Distinct by the pair.",
		&runPaths};
	property.enumCount = [](const pbt::Options&) -> std::uint64_t {return 9331 + 46656;};
	property.runEnum = &runPathsEnum;
	property.enumRule = "all strings of up to 6 of the characters / . a b \\ : , joined with all of up to 4 (3 for the longer)";
	property.assumptions = "Paths contain no NUL character.";
	return property;
}

pbt::Register t08(pathProperty());

// -------------------------------------------------------------------------------------------------- T09

double randomBound(Source& source)
{
	static const double special[] = {0, 1, -1, -0.0, 0.1, 1e21, 1e-7, 123456789012345680.0,
		std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(),
		std::numeric_limits<double>::denorm_min(), 2.2250738585072011e-308, 9007199254740993.0, 4294967295.0, 0.3,
		5e-324, 1.7976931348623157e308, 1e22, 1e23, 100, 65504};
	switch (source.weighted({3, 3, 3, 2}))
	{
		case 0:
			return source.pick(special);
		case 1:
		{
			std::uint64_t bits = source.bits64();
			double value;
			std::memcpy(&value, &bits, sizeof(value));
			return std::isfinite(value) ? value : 2.5;
		}
		case 2:
		{
			auto bits = static_cast<std::uint32_t>(source.bits64());
			float value;
			std::memcpy(&value, &bits, sizeof(value));
			return std::isfinite(value) ? static_cast<double>(value) : -0.5;
		}
		default:
			return static_cast<double>(static_cast<std::int64_t>(source.bits64()) >> source.below(64))/
				(source.flip() ? 255.0 : 1.0);
	}
}

const json::Value& member(const json::Value& object, const char* name, json::Kind kind, Context& context)
{
	PBT_REQUIRE(context, object.kind == json::Kind::Object, "an object with '%s' expected", name);
	const json::Value* value = object.find(name);
	PBT_REQUIRE(context, value && object.count(name) == 1, "member '%s' occurs %u times", name, object.count(name));
	PBT_REQUIRE(context, value->kind == kind, "member '%s' is of the wrong kind", name);
	return *value;
}

void requireInteger(const json::Value& object, const char* name, std::int64_t expected, Context& context)
{
	std::int64_t found = 0;
	bool integer = member(object, name, json::Kind::Number, context).asInteger(found);
	PBT_REQUIRE(context, integer && found == expected, "%s is %s instead of %lld", name, object.find(name)->text.c_str(),
		static_cast<long long>(expected));
	context.checked();
}

void requireString(const json::Value& object, const char* name, const std::string& expected, Context& context)
{
	const std::string& found = member(object, name, json::Kind::String, context).text;
	PBT_REQUIRE(context, found == expected, "%s is '%s' instead of '%s'", name, printable(found).c_str(),
		printable(expected).c_str());
	context.checked();
}

void requireBounds(const json::Value& object, const char* name, const vfc::VertexValue& expected, Context& context)
{
	const json::Value& array = member(object, name, json::Kind::Array, context);
	PBT_REQUIRE(context, array.items.size() == 4, "%s has %zu components", name, array.items.size());
	for (unsigned i = 0; i < 4; ++i)
	{
		PBT_REQUIRE(context, array.items[i].kind == json::Kind::Number && array.items[i].asDouble() == expected[i],
			"%s component %u is %s instead of %.17g", name, i, array.items[i].text.c_str(), expected[i]);
	}
	context.checked(4);
}

void runResult(Source& source, Context& context)
{
	unsigned streams = 1 + source.small(4);
	std::vector<config::Format> formats;
	std::vector<vfc::VertexFormat> vertexFormat(streams);
	std::vector<std::vector<Bounds>> bounds(streams);
	std::vector<std::string> vertexData;
	std::vector<std::string> taken;
	bool finite = true;
	for (unsigned i = 0; i < streams; ++i)
	{
		formats.push_back(randomFormat(source, taken, 6));
		if (source.chance(1, 400))
		{
			// Offsets beyond all small numbers.
			unsigned more = source.flip() ? static_cast<unsigned>(source.below(300)) :
				static_cast<unsigned>(source.range(2000, 2100));
			for (unsigned j = 0; j < more; ++j)
			{
				formats.back().push_back(config::Element{"more" + std::to_string(taken.size()),
					ref::ElementLayout::X64Y64Z64W64, ref::ElementType::Float});
				taken.push_back(formats.back().back().name);
			}
			context.label("very many elements");
		}
		for (const config::Element& element : formats.back())
		{
			vertexFormat[i].appendElement(element.name, element.layout, element.type);
			Bounds cur;
			for (unsigned k = 0; k < 4; ++k)
			{
				cur.min[k] = randomBound(source);
				cur.max[k] = randomBound(source);
			}
			if (formats.back().size() < 50 && source.chance(1, 100))
			{
				static const double infinite[] = {std::numeric_limits<double>::infinity(),
					-std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
				(source.flip() ? cur.min : cur.max)[static_cast<unsigned>(source.below(4))] = source.pick(infinite);
				finite = false;
			}
			bounds[i].push_back(cur);
		}
		vertexData.push_back(source.chance(1, 20) ? std::string(source.below(100000), 'B') : randomData(source));
	}
	auto vertexCount = static_cast<std::uint32_t>(source.flip() ? source.below(100) : source.bits64());
	IndexType indexType = randomIndexType(source);
	std::vector<IndexFileData> indexData;
	std::vector<std::string> indexStrings;
	if (indexType != IndexType::NoIndices)
	{
		unsigned count = 1 + source.small(5);
		if (source.chance(1, 200))
			count = static_cast<unsigned>(source.flip() ? 0 : source.range(1, 1200));
		for (unsigned i = 0; i < count; ++i)
			indexStrings.push_back(count > 10 ? "base64:" + std::to_string(i) : randomData(source));
		for (unsigned i = 0; i < count; ++i)
		{
			auto indexCount = static_cast<std::uint32_t>(source.flip() ? source.below(100) : source.bits64());
			auto baseVertex = static_cast<std::int32_t>(source.flip() ? source.below(100000) :
				source.below(0x80000000ULL));
			indexData.push_back(IndexFileData{indexCount, baseVertex, indexStrings[i].c_str()});
		}
	}

	std::string text = resultFile(vertexFormat, bounds, vertexData, vertexCount, indexType, indexData);
	context.describe(printable(text).substr(0, 20000));
	context.digest(text);
	if (!finite)
	{
		// JSON can't state it.
		PBT_REQUIRE(context, text.empty(), "bounds that aren't finite are written");
		context.label("bounds not finite");
		return;
	}
	json::ParseResult parsed = json::parse(text);
	PBT_REQUIRE(context, parsed.valid, "not JSON at %zu", parsed.errorOffset);
	PBT_REQUIRE(context, json::validUtf8(text), "not UTF-8");
	const json::Value& root = parsed.value;
	const json::Value& vertices = member(root, "vertices", json::Kind::Array, context);
	PBT_REQUIRE(context, vertices.items.size() == streams, "%zu vertex streams instead of %u", vertices.items.size(),
		streams);
	for (unsigned i = 0; i < streams; ++i)
	{
		const json::Value& stream = vertices.items[i];
		const json::Value& elements = member(stream, "vertexFormat", json::Kind::Array, context);
		PBT_REQUIRE(context, elements.items.size() == formats[i].size(), "%zu elements instead of %zu",
			elements.items.size(), formats[i].size());
		std::uint32_t offset = 0;
		for (std::size_t j = 0; j < formats[i].size(); ++j)
		{
			const json::Value& object = elements.items[j];
			const ref::LayoutInfo& info = ref::layoutInfo(formats[i][j].layout);
			requireString(object, "name", formats[i][j].name, context);
			requireString(object, "layout", info.name, context);
			requireString(object, "type", ref::typeName(formats[i][j].type), context);
			requireInteger(object, "offset", offset, context);
			requireBounds(object, "minValue", bounds[i][j].min, context);
			requireBounds(object, "maxValue", bounds[i][j].max, context);
			offset += info.size;
		}
		requireInteger(stream, "vertexStride", offset, context);
		requireString(stream, "vertexData", vertexData[i], context);
	}
	requireInteger(root, "vertexCount", vertexCount, context);
	if (indexType == IndexType::NoIndices)
	{
		PBT_REQUIRE(context, !root.find("indexType") && !root.find("indexBuffers"), "indices where there are none");
		context.label("no indices");
	}
	else
	{
		requireString(root, "indexType", indexType == IndexType::UInt16 ? "UInt16" : "UInt32", context);
		// May be left out if there are none.
		bool none = indexData.empty() && !root.find("indexBuffers");
		const json::Value& buffers = none ? json::Value::array() : member(root, "indexBuffers", json::Kind::Array, context);
		PBT_REQUIRE(context, buffers.items.size() == indexData.size(), "%zu index buffers instead of %zu",
			buffers.items.size(), indexData.size());
		for (std::size_t i = 0; i < indexData.size(); ++i)
		{
			requireInteger(buffers.items[i], "indexCount", indexData[i].count, context);
			requireInteger(buffers.items[i], "baseVertex", indexData[i].baseVertex, context);
			requireString(buffers.items[i], "indexData", indexStrings[i], context);
		}
		context.label("indices");
	}
	context.nontrivial();
	context.labelIf(streams > 1, "several vertex streams");
	context.labelIf(indexData.size() > 1, "several index buffers");
}

pbt::Register t09({"T09",
	"Random results: 1-5 vertex streams of 1-6 elements with any names, data strings with any characters (up to 100000), "
	"bounds of any finite doubles (random bits, floats, powers, integers over 255, limits), counts and base vertices up to "
	"their limits, no or 1-6 (rarely 0-1200) index buffers. The document is read with an independent JSON reader and compared field by "
	"field. Bounds that aren't finite must give no document. Non-trivial: a document was due. Distinct by the document.",
	&runResult, nullptr, nullptr, nullptr, nullptr, false, "Strings contain no NUL character and are valid UTF-8."});

} // namespace
