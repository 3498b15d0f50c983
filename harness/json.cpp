#include "json.h"

#include <algorithm>
#include <cstdlib>
#include <limits>

namespace json
{

Value Value::string(std::string text)
{
	Value value;
	value.kind = Kind::String;
	value.text = std::move(text);
	return value;
}

Value Value::number(std::string text)
{
	Value value;
	value.kind = Kind::Number;
	value.text = std::move(text);
	return value;
}

Value Value::array()
{
	Value value;
	value.kind = Kind::Array;
	return value;
}

Value Value::object()
{
	Value value;
	value.kind = Kind::Object;
	return value;
}

const Value* Value::find(const char* name) const
{
	for (const auto& member : members)
	{
		if (member.first == name)
			return &member.second;
	}
	return nullptr;
}

unsigned Value::count(const char* name) const
{
	unsigned result = 0;
	for (const auto& member : members)
		result += member.first == name;
	return result;
}

double Value::asDouble() const
{
	return std::strtod(text.c_str(), nullptr);
}

bool Value::asInteger(std::int64_t& out) const
{
	if (kind != Kind::Number || text.find_first_of(".eE") != std::string::npos || text.size() > 18)
		return false;
	out = std::strtoll(text.c_str(), nullptr, 10);
	return true;
}

void Value::add(const std::string& name, Value value)
{
	members.emplace_back(name, std::move(value));
}

namespace
{

class Parser
{
public:
	explicit Parser(const std::string& text) : m_text(text) {}

	ParseResult run()
	{
		ParseResult result;
		space();
		bool ok = value(result.value, 0);
		if (ok)
		{
			space();
			m_token = m_pos;
			ok = m_pos == m_text.size();
		}
		result.valid = ok;
		result.open = m_open;
		result.tokenStart = m_token;
		result.errorOffset = m_pos;
		return result;
	}

private:
	int peek() const
	{
		return m_pos < m_text.size() ? static_cast<unsigned char>(m_text[m_pos]) : -1;
	}
	void space()
	{
		while (peek() == ' ' || peek() == '\t' || peek() == '\n' || peek() == '\r')
			++m_pos;
	}
	bool literal(const char* word)
	{
		for (; *word; ++word)
		{
			if (peek() != *word)
				return false;
			++m_pos;
		}
		return true;
	}
	bool digits()
	{
		if (peek() < '0' || peek() > '9')
			return false;
		while (peek() >= '0' && peek() <= '9')
			++m_pos;
		return true;
	}
	bool number(Value& out)
	{
		out.kind = Kind::Number;
		std::size_t start = m_pos;
		if (peek() == '-')
			++m_pos;
		if (peek() == '0')
			++m_pos;
		else if (!digits())
			return false;
		if (peek() == '.')
		{
			++m_pos;
			if (!digits())
				return false;
		}
		if (peek() == 'e' || peek() == 'E')
		{
			++m_pos;
			if (peek() == '+' || peek() == '-')
				++m_pos;
			if (!digits())
				return false;
		}
		out.text = m_text.substr(start, m_pos - start);
		// Too large for a double, or zero with such an exponent.
		if (!(std::abs(out.asDouble()) <= std::numeric_limits<double>::max()))
			m_open = true;
		std::size_t exponent = out.text.find_first_of("eE");
		if (out.asDouble() == 0.0 && exponent != std::string::npos &&
			std::strtod(out.text.c_str() + exponent + 1, nullptr) > 308.0)
		{
			m_open = true;
		}
		return true;
	}
	bool hex4(unsigned& out)
	{
		out = 0;
		for (int i = 0; i < 4; ++i)
		{
			int c = peek();
			if (c >= '0' && c <= '9')
				out = out*16 + static_cast<unsigned>(c - '0');
			else if (c >= 'a' && c <= 'f')
				out = out*16 + static_cast<unsigned>(c - 'a' + 10);
			else if (c >= 'A' && c <= 'F')
				out = out*16 + static_cast<unsigned>(c - 'A' + 10);
			else
				return false;
			++m_pos;
		}
		return true;
	}
	static void utf8(std::string& out, unsigned code)
	{
		if (code < 0x80)
			out += static_cast<char>(code);
		else if (code < 0x800)
		{
			out += static_cast<char>(0xC0 | code >> 6);
			out += static_cast<char>(0x80 | (code & 0x3F));
		}
		else if (code < 0x10000)
		{
			out += static_cast<char>(0xE0 | code >> 12);
			out += static_cast<char>(0x80 | (code >> 6 & 0x3F));
			out += static_cast<char>(0x80 | (code & 0x3F));
		}
		else
		{
			out += static_cast<char>(0xF0 | code >> 18);
			out += static_cast<char>(0x80 | (code >> 12 & 0x3F));
			out += static_cast<char>(0x80 | (code >> 6 & 0x3F));
			out += static_cast<char>(0x80 | (code & 0x3F));
		}
	}
	bool string(std::string& out)
	{
		++m_pos;
		for (;;)
		{
			int c = peek();
			if (c < 0x20)
				return false;
			++m_pos;
			if (c == '"')
				return true;
			if (c != '\\')
			{
				out += static_cast<char>(c);
				continue;
			}
			c = peek();
			switch (c)
			{
				case '"':
				case '\\':
				case '/':
					out += static_cast<char>(c);
					break;
				case 'b':
					out += '\b';
					break;
				case 'f':
					out += '\f';
					break;
				case 'n':
					out += '\n';
					break;
				case 'r':
					out += '\r';
					break;
				case 't':
					out += '\t';
					break;
				case 'u':
				{
					++m_pos;
					unsigned code;
					if (!hex4(code))
						return false;
					if (code >= 0xD800 && code < 0xE000)
					{
						// Surrogates out of place are grammatical, but mean nothing.
						std::size_t before = m_pos;
						unsigned low = 0;
						if (code < 0xDC00 && peek() == '\\')
						{
							++m_pos;
							if (peek() == 'u')
							{
								++m_pos;
								if (!hex4(low))
								{
									m_open = true;
									return false;
								}
							}
						}
						if (low >= 0xDC00 && low < 0xE000)
							code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
						else
						{
							m_open = true;
							m_pos = before;
						}
					}
					utf8(out, code);
					continue;
				}
				default:
					return false;
			}
			++m_pos;
		}
	}
	bool value(Value& out, unsigned depth)
	{
		m_token = m_pos;
		if (depth > maxDepth)
		{
			m_open = true;
			return false;
		}
		switch (peek())
		{
			case 'n':
				return literal("null");
			case 't':
				out.kind = Kind::True;
				return literal("true");
			case 'f':
				out.kind = Kind::False;
				return literal("false");
			case '"':
				out.kind = Kind::String;
				return string(out.text);
			case '[':
				out.kind = Kind::Array;
				++m_pos;
				space();
				m_token = m_pos;
				if (peek() == ']')
				{
					++m_pos;
					return true;
				}
				for (;;)
				{
					out.items.emplace_back();
					if (!value(out.items.back(), depth + 1))
						return false;
					space();
					m_token = m_pos;
					if (peek() == ']')
					{
						++m_pos;
						return true;
					}
					if (peek() != ',')
						return false;
					++m_pos;
					space();
				}
			case '{':
				out.kind = Kind::Object;
				++m_pos;
				space();
				m_token = m_pos;
				if (peek() == '}')
				{
					++m_pos;
					return true;
				}
				for (;;)
				{
					m_token = m_pos;
					if (peek() != '"')
						return false;
					out.members.emplace_back();
					if (!string(out.members.back().first))
						return false;
					space();
					m_token = m_pos;
					if (peek() != ':')
						return false;
					++m_pos;
					space();
					if (!value(out.members.back().second, depth + 1))
						return false;
					space();
					m_token = m_pos;
					if (peek() == '}')
					{
						++m_pos;
						return true;
					}
					if (peek() != ',')
						return false;
					++m_pos;
					space();
				}
			default:
				return number(out);
		}
	}

	const std::string& m_text;
	std::size_t m_pos = 0;
	std::size_t m_token = 0;
	bool m_open = false;
};

void writeSpace(std::string& out, pbt::Source* source, bool pretty)
{
	if (!source || !pretty)
		return;
	static const char* const spaces[] = {"", "", "", " ", "\n", "\t", "\r\n", "  \n\t"};
	out += source->pick(spaces);
}

std::size_t sequenceLength(const std::string& text, std::size_t i)
{
	auto byte = [&](std::size_t k) {return k < text.size() ? static_cast<unsigned char>(text[k]) : 0U;};
	unsigned c = byte(i);
	auto tail = [&](std::size_t count)
	{
		for (std::size_t k = 1; k < count; ++k)
		{
			if ((byte(i + k) & 0xC0) != 0x80)
				return false;
		}
		return true;
	};
	if (c < 0x80)
		return 1;
	if (c >= 0xC2 && c < 0xE0)
		return tail(2) ? 2 : 0;
	if (c >= 0xE0 && c < 0xF0)
	{
		if (!tail(3) || (c == 0xE0 && byte(i + 1) < 0xA0) || (c == 0xED && byte(i + 1) >= 0xA0))
			return 0;
		return 3;
	}
	if (c >= 0xF0 && c < 0xF5)
	{
		if (!tail(4) || (c == 0xF0 && byte(i + 1) < 0x90) || (c == 0xF4 && byte(i + 1) >= 0x90))
			return 0;
		return 4;
	}
	return 0;
}

void writeString(std::string& out, const std::string& text, pbt::Source* source)
{
	unsigned style = source ? source->weighted({3, 1, 1}) : 0;
	out += '"';
	for (std::size_t i = 0; i < text.size();)
	{
		auto c = static_cast<unsigned char>(text[i]);
		bool escape = style == 2 || (style == 1 && source->chance(1, 3));
		std::size_t length = sequenceLength(text, i);
		if (escape && length > 0)
		{
			unsigned code = length == 1 ? c : c & (0x7FU >> length);
			for (std::size_t k = 1; k < length; ++k)
				code = code << 6 | (static_cast<unsigned char>(text[i + k]) & 0x3F);
			const char* format = source->flip() ? "\\u%04x" : "\\u%04X";
			if (code >= 0x10000)
			{
				code -= 0x10000;
				out += pbt::format(format, 0xD800 + (code >> 10));
				out += pbt::format(format, 0xDC00 + (code & 0x3FF));
			}
			else
				out += pbt::format(format, code);
			i += length;
			continue;
		}
		++i;
		switch (c)
		{
			case '"':
				out += "\\\"";
				break;
			case '\\':
				out += "\\\\";
				break;
			case '\n':
				out += "\\n";
				break;
			case '\t':
				out += "\\t";
				break;
			case '\r':
				out += "\\r";
				break;
			case '\b':
				out += "\\b";
				break;
			case '\f':
				out += "\\f";
				break;
			case '/':
				out += source && source->chance(1, 8) ? "\\/" : "/";
				break;
			default:
				if (c < 0x20)
					out += pbt::format("\\u%04x", c);
				else
					out += static_cast<char>(c);
		}
	}
	out += '"';
}

void writeValue(std::string& out, const Value& value, pbt::Source* source, bool pretty)
{
	switch (value.kind)
	{
		case Kind::Null:
			out += "null";
			break;
		case Kind::False:
			out += "false";
			break;
		case Kind::True:
			out += "true";
			break;
		case Kind::Number:
			out += value.text;
			break;
		case Kind::String:
			writeString(out, value.text, source);
			break;
		case Kind::Array:
			out += '[';
			writeSpace(out, source, pretty);
			for (std::size_t i = 0; i < value.items.size(); ++i)
			{
				if (i)
				{
					out += ',';
					writeSpace(out, source, pretty);
				}
				writeValue(out, value.items[i], source, pretty);
				writeSpace(out, source, pretty);
			}
			out += ']';
			break;
		case Kind::Object:
			out += '{';
			writeSpace(out, source, pretty);
			for (std::size_t i = 0; i < value.members.size(); ++i)
			{
				if (i)
				{
					out += ',';
					writeSpace(out, source, pretty);
				}
				writeString(out, value.members[i].first, source);
				writeSpace(out, source, pretty);
				out += ':';
				writeSpace(out, source, pretty);
				writeValue(out, value.members[i].second, source, pretty);
				writeSpace(out, source, pretty);
			}
			out += '}';
			break;
	}
}

} // namespace

ParseResult parse(const std::string& text)
{
	return Parser(text).run();
}

bool validUtf8(const std::string& text)
{
	for (std::size_t i = 0; i < text.size();)
	{
		std::size_t length = sequenceLength(text, i);
		if (length == 0)
			return false;
		i += length;
	}
	return true;
}

std::string write(const Value& value, pbt::Source* source)
{
	std::string out;
	bool pretty = source && source->flip();
	writeSpace(out, source, pretty);
	writeValue(out, value, source, pretty);
	writeSpace(out, source, pretty);
	return out;
}

static const char base64Letters[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string base64Encode(const std::vector<std::uint8_t>& data)
{
	std::string out;
	for (std::size_t bit = 0; bit < 8*data.size(); bit += 6)
	{
		unsigned letter = 0;
		for (std::size_t i = bit; i < bit + 6; ++i)
			letter = letter*2 + (i < 8*data.size() ? data[i/8] >> (7 - i % 8) & 1U : 0U);
		out += base64Letters[letter];
	}
	while (out.size() % 4 != 0)
		out += '=';
	return out;
}

int base64Decode(std::vector<std::uint8_t>& out, const std::string& text)
{
	if (text.size() % 4 != 0)
		return 0;
	std::size_t letters = text.size();
	while (letters > 0 && text.size() - letters < 2 && text[letters - 1] == '=')
		--letters;
	unsigned buffer = 0, bits = 0;
	for (std::size_t i = 0; i < letters; ++i)
	{
		const char* found = text[i] ? std::strchr(base64Letters, text[i]) : nullptr;
		if (!found)
			return 0;
		buffer = buffer << 6 | static_cast<unsigned>(found - base64Letters);
		bits += 6;
		if (bits >= 8)
		{
			bits -= 8;
			out.push_back(static_cast<std::uint8_t>(buffer >> bits));
			buffer &= (1U << bits) - 1;
		}
	}
	return buffer == 0 ? 1 : -1;
}

} // namespace json

namespace config
{

using json::Kind;
using json::Value;

const char* const transformNames[4] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};

namespace
{

const char* indexNames[3] = {nullptr, "UInt16", "UInt32"};

std::string anyCase(std::string text, pbt::Source* source)
{
	if (!source)
		return text;
	unsigned style = source->weighted({4, 1, 1, 1});
	for (char& c : text)
	{
		bool upper = style == 1 || (style == 3 && source->flip());
		bool lower = style == 2 || (style == 3 && !upper);
		if (upper && c >= 'a' && c <= 'z')
			c = static_cast<char>(c - 'a' + 'A');
		else if (lower && c >= 'A' && c <= 'Z')
			c = static_cast<char>(c - 'A' + 'a');
	}
	return text;
}

Value junk(pbt::Source& source, unsigned depth = 0)
{
	static const char* const numbers[] = {"0", "-1", "3.5", "1e10", "-0.0", "12345678901234567890", "1E-5", "-7"};
	static const char* const strings[] = {"", "a", "X32", "Float", "\"", "\\", "\n", "\xc3\xa9", "base64:AAAA", "null"};
	switch (source.below(depth < 4 ? 7 : 5))
	{
		case 0:
			return Value();
		case 1:
			return Value::number(source.pick(numbers));
		case 2:
			return Value::string(source.pick(strings));
		case 3:
		{
			Value value;
			value.kind = Kind::True;
			return value;
		}
		case 4:
		{
			Value value;
			value.kind = Kind::False;
			return value;
		}
		case 5:
		{
			Value value = Value::array();
			unsigned count = source.small(3);
			for (unsigned i = 0; i < count; ++i)
				value.items.push_back(junk(source, depth + 1));
			return value;
		}
		default:
		{
			Value value = Value::object();
			unsigned count = source.small(3);
			for (unsigned i = 0; i < count; ++i)
				value.add(source.pick(strings), junk(source, depth + 1));
			return value;
		}
	}
}

// Any order, and members that mean nothing.
void present(Value& object, pbt::Source* source)
{
	if (!source)
		return;
	if (source->chance(1, 6))
	{
		static const char* const names[] = {"comment", "", "Name", "names", "nam", "LAYOUT", "vertexformat",
			"VertexData", "transforms", "\xc3\xa9", "offset", "x\"y"};
		object.add(source->pick(names), junk(*source));
	}
	if (source->chance(1, 3))
	{
		for (std::size_t i = object.members.size(); i > 1; --i)
			std::swap(object.members[i - 1], object.members[source->below(i)]);
	}
}

Value formatTree(const Format& format, pbt::Source* source)
{
	Value array = Value::array();
	for (const Element& element : format)
	{
		const ref::LayoutInfo& info = ref::layoutInfo(element.layout);
		Value object = Value::object();
		object.add("name", Value::string(element.name));
		bool color = source && source->chance(1, 3);
		object.add("layout", Value::string(anyCase(color ? info.colorName : info.name, source)));
		object.add("type", Value::string(anyCase(ref::typeName(element.type), source)));
		present(object, source);
		array.items.push_back(object);
	}
	return array;
}

void addIndexType(Value& object, IndexType type, pbt::Source* source)
{
	if (type != IndexType::NoIndices)
		object.add("indexType", Value::string(anyCase(indexNames[static_cast<unsigned>(type)], source)));
	else if (source && source->chance(1, 4))
		object.add("indexType", Value());
}

bool hasNul(const std::string& text)
{
	return text.find('\0') != std::string::npos;
}

bool sameName(const std::string& a, const char* b)
{
	std::size_t i = 0;
	auto lower = [](char c) {return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;};
	for (; i < a.size() && b[i]; ++i)
	{
		if (lower(a[i]) != lower(b[i]))
			return false;
	}
	return i == a.size() && !b[i];
}

class Judge
{
public:
	bool open = false;

	// The member, noting what readers may take differently.
	const Value* member(const Value& object, const char* name)
	{
		if (object.count(name) > 1)
			open = true;
		return object.find(name);
	}
	bool string(const Value& object, const char* name, std::string& out)
	{
		const Value* value = member(object, name);
		if (!value || value->kind != Kind::String)
			return false;
		if (hasNul(value->text))
			open = true;
		out = value->text;
		return true;
	}
	bool format(const Value& value, Format& out)
	{
		if (value.kind != Kind::Array || value.items.empty())
			return false;
		for (const Value& item : value.items)
		{
			if (item.kind != Kind::Object)
				return false;
			Element element;
			std::string layout, type;
			if (!string(item, "name", element.name) || !string(item, "layout", layout) || !string(item, "type", type))
				return false;
			bool found = false;
			for (const ref::LayoutInfo& info : ref::layouts())
			{
				if (sameName(layout, info.name) || sameName(layout, info.colorName))
				{
					element.layout = info.layout;
					found = true;
				}
			}
			if (!found)
				return false;
			found = false;
			for (const ref::TypeInfo& info : ref::types())
			{
				if (sameName(type, info.name))
				{
					element.type = info.type;
					found = true;
				}
			}
			if (!found || !ref::validElement(element.layout, element.type))
				return false;
			for (const Element& other : out)
			{
				if (other.name == element.name)
					return false;
			}
			out.push_back(element);
		}
		return true;
	}
	bool indexType(const Value& object, IndexType& out)
	{
		const Value* value = member(object, "indexType");
		out = IndexType::NoIndices;
		if (!value || value->kind == Kind::Null)
			return true;
		if (value->kind != Kind::String)
			return false;
		if (hasNul(value->text))
			open = true;
		if (sameName(value->text, "UInt16"))
			out = IndexType::UInt16;
		else if (sameName(value->text, "UInt32"))
			out = IndexType::UInt32;
		else
			return false;
		return true;
	}
	bool root(const Value& value, Config& out)
	{
		if (value.kind != Kind::Object)
			return false;
		// A mistake anywhere makes it invalid, whatever else is open; see below.
		const Value* formats = member(value, "vertexFormat");
		if (!formats || formats->kind != Kind::Array || formats->items.empty())
			return false;
		for (const Value& item : formats->items)
		{
			Format cur;
			if (!format(item, cur))
				return false;
			for (const Format& other : out.output)
			{
				for (const Element& a : other)
				{
					for (const Element& b : cur)
					{
						if (a.name == b.name)
							return false;
					}
				}
			}
			out.output.push_back(cur);
		}
		if (!indexType(value, out.indexType))
			return false;
		const Value* primitive = member(value, "primitiveType");
		if (primitive && primitive->kind != Kind::Null)
		{
			if (primitive->kind != Kind::String)
				return false;
			if (hasNul(primitive->text))
				open = true;
			bool found = false;
			for (const ref::PrimitiveInfo& info : ref::primitives())
			{
				if (sameName(primitive->text, info.name))
				{
					out.primitive = info.type;
					found = true;
				}
			}
			if (!found)
				return false;
		}
		if (out.primitive == PrimitiveType::PatchList)
		{
			const Value* points = member(value, "patchPoints");
			if (!points || points->kind != Kind::Number)
				return false;
			std::int64_t number;
			if (!points->asInteger(number))
			{
				double real = points->asDouble();
				// Whole numbers in another notation, and large ones, are left open.
				if (real != static_cast<double>(static_cast<std::int64_t>(
						std::max(std::min(real, 1e18), -1e18))) || real <= 0)
				{
					if (real < 1e18)
						return false;
				}
				open = true;
				number = 1;
			}
			if (number <= 0)
				return false;
			if (number > 0x7FFFFFFF)
				open = true;
			out.patchPoints = static_cast<std::uint32_t>(number);
		}
		const Value* streams = member(value, "vertexStreams");
		if (!streams || streams->kind != Kind::Array || streams->items.empty())
			return false;
		for (const Value& item : streams->items)
		{
			if (item.kind != Kind::Object)
				return false;
			Stream stream;
			const Value* vertexFormat = member(item, "vertexFormat");
			if (!vertexFormat || !format(*vertexFormat, stream.format) || !string(item, "vertexData", stream.vertexData) ||
				!indexType(item, stream.indexType))
			{
				return false;
			}
			if (stream.indexType != IndexType::NoIndices && !string(item, "indexData", stream.indexData))
				return false;
			out.streams.push_back(stream);
		}
		const Value* transforms = member(value, "vertexTransforms");
		if (transforms && transforms->kind == Kind::Null)
			open = true;
		else if (transforms)
		{
			if (transforms->kind != Kind::Array)
				return false;
			for (const Value& item : transforms->items)
			{
				if (item.kind != Kind::Object)
					return false;
				std::string name, transform;
				if (!string(item, "name", name) || !string(item, "transform", transform))
					return false;
				int found = -1;
				for (int i = 0; i < 4; ++i)
				{
					if (sameName(transform, transformNames[i]))
						found = i;
				}
				if (found < 0)
					return false;
				out.transforms.emplace_back(name, found);
			}
		}
		return true;
	}
};

} // namespace

Value tree(const Config& config, pbt::Source* source)
{
	Value root = Value::object();
	Value formats = Value::array();
	for (const Format& format : config.output)
		formats.items.push_back(formatTree(format, source));
	root.add("vertexFormat", formats);
	addIndexType(root, config.indexType, source);
	if (config.primitive != PrimitiveType::TriangleList || !source || source->flip())
		root.add("primitiveType", Value::string(anyCase(ref::primitiveName(config.primitive), source)));
	else if (source->chance(1, 3))
		root.add("primitiveType", Value());
	if (config.primitive == PrimitiveType::PatchList)
		root.add("patchPoints", Value::number(std::to_string(config.patchPoints)));
	else if (source && source->chance(1, 8))
		root.add("patchPoints", junk(*source));
	Value streams = Value::array();
	for (const Stream& stream : config.streams)
	{
		Value object = Value::object();
		object.add("vertexFormat", formatTree(stream.format, source));
		object.add("vertexData", Value::string(stream.vertexData));
		addIndexType(object, stream.indexType, source);
		if (stream.indexType != IndexType::NoIndices)
			object.add("indexData", Value::string(stream.indexData));
		else if (source && source->chance(1, 8))
			object.add("indexData", junk(*source));
		present(object, source);
		streams.items.push_back(object);
	}
	root.add("vertexStreams", streams);
	if (!config.transforms.empty() || (source && source->chance(1, 4)))
	{
		Value transforms = Value::array();
		for (const auto& transform : config.transforms)
		{
			Value object = Value::object();
			object.add("name", Value::string(transform.first));
			object.add("transform", Value::string(anyCase(transformNames[transform.second], source)));
			present(object, source);
			transforms.items.push_back(object);
		}
		root.add("vertexTransforms", transforms);
	}
	present(root, source);
	return root;
}

Verdict judge(const Value& value, Config& out)
{
	Judge judge;
	bool valid = judge.root(value, out);
	if (judge.open)
		return Verdict::Open;
	return valid ? Verdict::Valid : Verdict::Invalid;
}

std::string text(const Config& config)
{
	return json::write(tree(config, nullptr), nullptr);
}

} // namespace config
