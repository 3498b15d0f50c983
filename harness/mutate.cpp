#include "mutate.h"

#include <cctype>

using pbt::Source;

namespace mutate
{

void appendUtf8(std::string& out, unsigned code)
{
	if (code < 0x80)
		out += static_cast<char>(code);
	else if (code < 0x800)
	{
		out += static_cast<char>(0xC0 | code >> 6);
		out += static_cast<char>(0x80 | (code & 0x3F));
	}
	else if (code < 0x10000)
	{
		out += static_cast<char>(0xE0 | code >> 12);
		out += static_cast<char>(0x80 | (code >> 6 & 0x3F));
		out += static_cast<char>(0x80 | (code & 0x3F));
	}
	else
	{
		out += static_cast<char>(0xF0 | code >> 18);
		out += static_cast<char>(0x80 | (code >> 12 & 0x3F));
		out += static_cast<char>(0x80 | (code >> 6 & 0x3F));
		out += static_cast<char>(0x80 | (code & 0x3F));
	}
}

std::string randomText(Source& source, unsigned maxLength)
{
	std::string out;
	unsigned length = source.small(maxLength);
	for (unsigned i = 0; i < length; ++i)
	{
		switch (source.weighted({5, 2, 2, 2}))
		{
			case 0:
				out += static_cast<char>('a' + source.below(26));
				break;
			case 1:
			{
				static const char special[] = "\"\\/\b\f\n\r\t {}[]:,'<>&";
				out += special[source.below(sizeof(special) - 1)];
				break;
			}
			case 2:
				out += static_cast<char>(1 + source.below(127));
				break;
			default:
			{
				auto code = static_cast<unsigned>(source.pick({0x80U, 0x7FFU, 0x800U, 0xFFFFU, 0x10000U, 0x10FFFFU, 0xE9U,
					0x2028U, 0xFEFFU, 0x1F600U, 0xD7FFU, 0xE000U}));
				if (source.flip())
					code = 1 + static_cast<unsigned>(source.below(0x10FFFF));
				if (code >= 0xD800 && code < 0xE000)
					code = 'x';
				appendUtf8(out, code);
			}
		}
	}
	return out;
}

void collectValues(json::Value& value, std::vector<json::Value*>& out)
{
	out.push_back(&value);
	for (json::Value& item : value.items)
		collectValues(item, out);
	for (auto& member : value.members)
		collectValues(member.second, out);
}

json::Value wrongNumber(Source& source)
{
	static const char* const numbers[] = {"0", "1", "-1", "3", "2.5", "1e3", "2147483648", "-0", "99999999999999999999",
		"0.5", "3.5", "-2.5", "1e-5", "0.0", "-0.0", "1.0000001", "4294967297", "-4294967293", "18446744073709551619",
		"9223372036854775811", "2147483647.5"};
	return json::Value::number(source.pick(numbers));
}

json::Value wrongValue(Source& source)
{
	static const char* const strings[] = {"", "Invalid", "X33", "Float", "UNorm", "X32", "UInt8", "TriangleLis",
		"Quads", "Scale", "uint16", "XYZ", "R8G8B8A8 ", "E5Z9Y9X9", "base64:"};
	json::Value value;
	switch (source.below(7))
	{
		case 0:
			break;
		case 1:
			value = wrongNumber(source);
			break;
		case 2:
			value = json::Value::string(source.pick(strings));
			break;
		case 3:
			value.kind = json::Kind::True;
			break;
		case 4:
			value = json::Value::array();
			break;
		case 5:
			value = json::Value::object();
			break;
		default:
			value = json::Value::array();
			value.items.push_back(json::Value::array());
			break;
	}
	return value;
}

// The same contents in another shape, which a lenient reader may take for the right one.
void reshape(Source& source, json::Value& target)
{
	json::Value from = target;
	bool unwrap = source.flip();
	if (from.kind == json::Kind::Array)
	{
		if (unwrap && !from.items.empty())
		{
			target = from.items[source.below(from.items.size())];
			return;
		}
		if (source.flip())
		{
			target = json::Value::object();
			for (std::size_t i = 0; i < from.items.size(); ++i)
				target.members.emplace_back(std::to_string(i), from.items[i]);
			return;
		}
	}
	else if (from.kind == json::Kind::Object)
	{
		if (unwrap && !from.members.empty())
		{
			target = from.members[source.below(from.members.size())].second;
			return;
		}
		if (source.flip())
		{
			target = json::Value::array();
			for (const auto& member : from.members)
				target.items.push_back(member.second);
			return;
		}
	}
	else if (from.kind == json::Kind::Number && unwrap)
	{
		target = json::Value::string(from.text);
		return;
	}
	else if (from.isString() && unwrap && !from.text.empty())
	{
		// Other letters, or a space.
		std::string text = from.text;
		char& c = text[source.below(text.size())];
		if (std::islower(static_cast<unsigned char>(c)))
			c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
		else if (std::isupper(static_cast<unsigned char>(c)))
			c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
		else
			text += ' ';
		target = json::Value::string(text);
		return;
	}
	target = json::Value::array();
	target.items.push_back(from);
}

// One change anywhere in the tree.
void mutateTree(Source& source, json::Value& root)
{
	std::vector<json::Value*> values;
	collectValues(root, values);
	json::Value* chosen = values[source.below(values.size())];
	if (source.flip())
	{
		// Down from the root, as what is further up is as important.
		chosen = &root;
		while (!source.chance(1, 6))
		{
			if (!chosen->members.empty())
				chosen = &chosen->members[source.below(chosen->members.size())].second;
			else if (!chosen->items.empty())
				chosen = &chosen->items[source.below(chosen->items.size())];
			else
				break;
		}
	}
	json::Value& target = *chosen;
	if (target.kind == json::Kind::Number && source.flip())
	{
		target = wrongNumber(source);
		return;
	}
	switch (source.below(10))
	{
		case 0:
			target = wrongValue(source);
			break;
		case 9:
		{
			// One name for two things.
			std::vector<json::Value*> names;
			for (json::Value* value : values)
			{
				for (auto& member : value->members)
				{
					if (member.first == "name" && member.second.isString())
						names.push_back(&member.second);
				}
			}
			if (names.size() < 2)
				target = wrongValue(source);
			else
			{
				std::string name = source.pick(names)->text;
				*names[source.below(names.size())] = json::Value::string(name);
			}
			break;
		}
		case 7:
			reshape(source, target);
			break;
		case 8:
		{
			// What doesn't end at a scalar is reshaped on the way more often.
			std::vector<json::Value*> containers;
			for (json::Value* value : values)
			{
				if (!value->items.empty() || !value->members.empty())
					containers.push_back(value);
			}
			reshape(source, containers.empty() ? target : *containers[source.below(containers.size())]);
			break;
		}
		case 1:
			if (!target.members.empty())
				target.members.erase(target.members.begin() + static_cast<std::ptrdiff_t>(source.below(target.members.size())));
			else
				target = wrongValue(source);
			break;
		case 2:
			if (!target.items.empty())
				target.items.erase(target.items.begin() + static_cast<std::ptrdiff_t>(source.below(target.items.size())));
			else
				target = wrongValue(source);
			break;
		case 3:
			// Repeats an item, which may repeat names.
			if (!target.items.empty())
			{
				json::Value copy = target.items[source.below(target.items.size())];
				target.items.insert(target.items.begin() + static_cast<std::ptrdiff_t>(source.below(target.items.size() + 1)),
					copy);
			}
			else
				target = wrongValue(source);
			break;
		case 4:
			// Swaps two values, such as a layout and a type.
			std::swap(target.kind, values[source.below(values.size())]->kind);
			break;
		case 5:
		{
			// Takes a string from elsewhere.
			std::vector<std::string> strings;
			for (json::Value* value : values)
			{
				if (value->isString())
					strings.push_back(value->text);
			}
			if (strings.empty())
				target = wrongValue(source);
			else
				target = json::Value::string(source.pick(strings));
			break;
		}
		default:
			if (!target.members.empty())
				target.members[source.below(target.members.size())].second = wrongValue(source);
			else if (!target.items.empty())
				target.items[source.below(target.items.size())] = wrongValue(source);
			else
				target = wrongValue(source);
			break;
	}
}

void mutateText(Source& source, std::string& text)
{
	static const char tokens[] = "{}[]:,\"\\ \n\t0123456789.eE+-truefalsn/*'u\x01\x1f\x80\xff";
	unsigned changes = 1 + source.small(3);
	for (unsigned i = 0; i < changes; ++i)
	{
		auto pos = source.below(text.size() + 1);
		switch (source.below(5))
		{
			case 0:
				text.insert(pos, 1, tokens[source.below(sizeof(tokens) - 1)]);
				break;
			case 1:
				text.erase(pos, 1 + source.below(3));
				break;
			case 2:
				text = text.substr(0, pos);
				break;
			case 3:
				if (pos < text.size())
					text[pos] = tokens[source.below(sizeof(tokens) - 1)];
				break;
			default:
				text.insert(pos, 1, static_cast<char>(source.below(256)));
				break;
		}
	}
}

std::string randomJson(Source& source)
{
	static const char* const tokens[] = {"{", "}", "[", "]", ":", ",", "null", "true", "false", "\"a\"",
		"\"vertexFormat\"", "\"vertexStreams\"", "0", "-", "1", ".5", "e9", "\"", "\\", "\\u", "d800", " ", "\n", "//", "\xef\xbb\xbf",
		"\"name\":", "\"\\ud800\\udc00\"", "NaN", "Infinity", "tru", "1e999", "00"};
	std::string text;
	unsigned count = source.small(30);
	for (unsigned i = 0; i < count; ++i)
		text += source.pick(tokens);
	return text;
}

} // namespace mutate
