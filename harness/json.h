// A strict JSON reader and writer and base64 of the harness' own, and the reference reading of configurations.
#pragma once

#include "core.h"
#include "ref.h"

#include <string>
#include <utility>
#include <vector>

namespace json
{

enum class Kind {Null, False, True, Number, String, Array, Object};

struct Value
{
	Kind kind = Kind::Null;
	std::string text; // The characters of a string, or the literal of a number.
	std::vector<Value> items;
	std::vector<std::pair<std::string, Value>> members;

	static Value string(std::string text);
	static Value number(std::string text);
	static Value array();
	static Value object();

	bool isString() const {return kind == Kind::String;}
	const Value* find(const char* name) const; // The first such member.
	unsigned count(const char* name) const;
	double asDouble() const;
	bool asInteger(std::int64_t& out) const; // False if not written as an integer of 64 bits.
	void add(const std::string& name, Value value);
};

struct ParseResult
{
	bool valid = false;
	bool open = false;           // Grammatical, but of a kind that readers may refuse.
	std::size_t tokenStart = 0;  // Of the first mistake.
	std::size_t errorOffset = 0; // First character that can't continue the text.
	Value value;
};

constexpr unsigned maxDepth = 400;

ParseResult parse(const std::string& text);
// Valid UTF-8 throughout.
bool validUtf8(const std::string& text);
// With random white space and escapes if there is a source.
std::string write(const Value& value, pbt::Source* source);

std::string base64Encode(const std::vector<std::uint8_t>& data);
// 1 for standard base64, 0 for other text, -1 for unused bits that aren't zero, where reading is optional.
int base64Decode(std::vector<std::uint8_t>& out, const std::string& text);

} // namespace json

namespace config
{

using ref::ElementLayout;
using ref::ElementType;
using ref::IndexType;
using ref::PrimitiveType;

struct Element
{
	std::string name;
	ElementLayout layout;
	ElementType type;
};
using Format = std::vector<Element>;

struct Stream
{
	Format format;
	IndexType indexType = IndexType::NoIndices;
	std::string vertexData;
	std::string indexData;
};

// Names of the transforms, in the order of vfc::Converter::Transform.
extern const char* const transformNames[4];

struct Config
{
	std::vector<Format> output;
	IndexType indexType = IndexType::NoIndices;
	PrimitiveType primitive = PrimitiveType::TriangleList;
	std::uint32_t patchPoints = 0;
	std::vector<Stream> streams;
	std::vector<std::pair<std::string, int>> transforms;
};

// The tree of a configuration. With a source: members in any order, optional ones spelled out or not, letter case,
// color names, members that mean nothing.
json::Value tree(const Config& config, pbt::Source* source);

enum class Verdict {Valid, Invalid, Open};
// What a configuration means.
Verdict judge(const json::Value& value, Config& out);

std::string text(const Config& config);

} // namespace config
