// Vertex format and index helper properties F01 to F04.
#include "ref.h"

#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>

#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <sys/mman.h>

using pbt::Context;
using pbt::Source;
using ref::ElementLayout;
using ref::ElementType;
using ref::IndexType;
using ref::PrimitiveType;
using vfc::VertexFormat;

namespace
{

// -------------------------------------------------------------------------------------------------- F01

struct ModelElement
{
	std::string name;
	ElementLayout layout;
	ElementType type;
	std::uint32_t offset;
};

struct Model
{
	std::vector<ModelElement> elements;
	std::uint32_t stride = 0;

	int find(const std::string& name) const
	{
		for (std::size_t i = 0; i < elements.size(); ++i)
		{
			if (elements[i].name == name)
				return static_cast<int>(i);
		}
		return -1;
	}
	bool operator==(const Model& other) const
	{
		if (elements.size() != other.elements.size())
			return false;
		for (std::size_t i = 0; i < elements.size(); ++i)
		{
			if (elements[i].name != other.elements[i].name || elements[i].layout != other.elements[i].layout ||
				elements[i].type != other.elements[i].type || elements[i].offset != other.elements[i].offset)
			{
				return false;
			}
		}
		return true;
	}
	bool contains(const Model& other) const
	{
		for (const ModelElement& element : other.elements)
		{
			if (find(element.name) < 0)
				return false;
		}
		return true;
	}
};

std::string randomName(Source& source)
{
	static const char* const names[] = {"a", "position", "normal", "", "A", "Position", "positions", "positio", "b",
		"c", "tex coord", "\xc3\xa9", "\xff\xfe", "a\n", " a", "0"};
	switch (source.weighted({8, 2, 1}))
	{
		case 0:
			return source.pick(names);
		case 1:
		{
			std::string name;
			unsigned length = source.small(6);
			for (unsigned i = 0; i < length; ++i)
				name += static_cast<char>(1 + source.below(255));
			return name;
		}
		default:
			return std::string(source.below(400), 'n') + source.pick(names);
	}
}

bool same(const vfc::VertexElement& element, const ModelElement& model)
{
	return element.name == model.name && element.layout == model.layout && element.type == model.type &&
		element.offset == model.offset;
}

void checkFormat(const VertexFormat& format, const Model& model, Context& context)
{
	PBT_REQUIRE(context, format.size() == model.elements.size(), "%zu elements instead of %zu", format.size(),
		model.elements.size());
	PBT_REQUIRE(context, format.empty() == model.elements.empty(), "empty() is wrong");
	PBT_REQUIRE(context, format.stride() == model.stride, "stride %u instead of %u", format.stride(), model.stride);
	std::size_t i = 0;
	for (const vfc::VertexElement& element : format)
	{
		PBT_REQUIRE(context, i < model.elements.size(), "iteration goes past the end");
		const ModelElement& expected = model.elements[i];
		PBT_REQUIRE(context, same(element, expected), "element %zu is '%s' %d %d at %u instead of '%s' %d %d at %u", i,
			element.name.c_str(), static_cast<int>(element.layout), static_cast<int>(element.type), element.offset,
			expected.name.c_str(), static_cast<int>(expected.layout), static_cast<int>(expected.type), expected.offset);
		PBT_REQUIRE(context, &format[i] == &element && &format.at(i) == &element, "access to element %zu differs", i);
		auto found = format.find(expected.name);
		PBT_REQUIRE(context, found != format.end() && &*found == &element, "element %zu '%s' isn't found", i,
			expected.name.c_str());
		PBT_REQUIRE(context, format.find(expected.name.c_str()) == found, "lookups of '%s' differ",
			expected.name.c_str());
		++i;
	}
	PBT_REQUIRE(context, i == model.elements.size(), "iteration ends early");
	for (auto it = format.rbegin(); it != format.rend(); ++it)
	{
		--i;
		PBT_REQUIRE(context, &*it == &format[i], "reverse iteration differs");
	}
	PBT_REQUIRE(context, i == 0, "reverse iteration ends early");
	PBT_REQUIRE(context, format.cbegin() == format.begin() && format.cend() == format.end() &&
		format.crbegin() == format.rbegin() && format.crend() == format.rend(), "const iterators differ");
	if (!format.empty())
	{
		PBT_REQUIRE(context, &format.front() == &format[0] && &format.back() == &format[format.size() - 1],
			"front() or back() is wrong");
	}
	bool thrown = false;
	try
	{
		format.at(format.size());
	}
	catch (const std::out_of_range&)
	{
		thrown = true;
	}
	PBT_REQUIRE(context, thrown, "at() past the end doesn't throw");
	context.checked(5 + 4*model.elements.size());
}

// Many elements, and strides beyond 16 bits.
void runWide(Source& source, Context& context)
{
	static const unsigned sizes[] = {100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1025, 2047, 2049, 2100};
	unsigned count = source.pick(sizes) + static_cast<unsigned>(source.below(3));
	bool wide = source.flip();
	std::uint64_t state = source.bits64();
	VertexFormat format, some;
	Model model, someModel;
	auto append = [](VertexFormat& to, Model& toModel, const std::string& name, ElementLayout layout, ElementType type)
	{
		toModel.elements.push_back(ModelElement{name, layout, type, toModel.stride});
		toModel.stride += ref::layoutInfo(layout).size;
		return to.appendElement(name, layout, type) == VertexFormat::AddResult::Succeeded;
	};
	for (unsigned i = 0; i < count; ++i)
	{
		state = pbt::mix64(state);
		auto element = ref::validElements()[state % ref::validElements().size()];
		if (wide)
			element = {ElementLayout::X64Y64Z64W64, ElementType::Float};
		std::string name = pbt::format("e%u", i);
		PBT_REQUIRE(context, append(format, model, name, element.first, element.second), "element %u is refused", i);
		if ((state >> 32) % 64 == 0)
			append(some, someModel, name, element.first, element.second);
	}
	context.describe(pbt::format("%u elements, %u bytes", count, model.stride));
	context.digest(state ^ count);
	PBT_REQUIRE(context, format.size() == count && format.stride() == model.stride, "%zu elements, stride %u "
		"instead of %u and %u", format.size(), format.stride(), count, model.stride);
	VertexFormat copy(format);
	PBT_REQUIRE(context, copy == format && !(copy != format), "the copy differs");
	unsigned i = 0;
	for (const vfc::VertexElement& element : copy)
	{
		PBT_REQUIRE(context, same(element, model.elements[i]), "element %u is '%s' at %u instead of '%s' at %u", i,
			element.name.c_str(), element.offset, model.elements[i].name.c_str(), model.elements[i].offset);
		++i;
	}
	PBT_REQUIRE(context, i == count, "%u elements by iteration", i);
	for (unsigned j = 0; j < 40; ++j)
	{
		i = static_cast<unsigned>(source.below(count));
		auto found = format.find(model.elements[i].name);
		PBT_REQUIRE(context, found == format.begin() + i, "element %u isn't found", i);
		PBT_REQUIRE(context, format.appendElement(model.elements[i].name, ElementLayout::X8, ElementType::UInt) ==
			VertexFormat::AddResult::NameNotUnique, "element %u is accepted again", i);
	}
	PBT_REQUIRE(context, format.size() == count && format.stride() == model.stride && format == copy,
		"refused elements changed the format");
	PBT_REQUIRE(context, format.containsElements(some), "some of the elements aren't contained");
	PBT_REQUIRE(context, some.containsElements(format) == someModel.contains(model), "containment is wrong");
	append(some, someModel, "other", ElementLayout::X8, ElementType::UInt);
	PBT_REQUIRE(context, !format.containsElements(some), "another element is contained");
	append(copy, model, "other", ElementLayout::X8, ElementType::UInt);
	PBT_REQUIRE(context, copy != format && copy.containsElements(format), "one element more is no difference");
	context.label("more than a hundred elements");
	context.labelIf(model.stride > 65536, "more than 65536 bytes");
	context.nontrivial();
}

void runFormat(Source& source, Context& context)
{
	if (source.chance(1, 300))
	{
		runWide(source, context);
		return;
	}
	constexpr unsigned slots = 3;
	VertexFormat formats[slots];
	Model models[slots];
	std::string text;
	unsigned steps = 1 + source.small(40);
	unsigned largest = 0;
	bool rejected = false;
	for (unsigned step = 0; step < steps; ++step)
	{
		auto slot = static_cast<unsigned>(source.below(slots));
		auto other = static_cast<unsigned>(source.below(slots));
		VertexFormat& format = formats[slot];
		Model& model = models[slot];
		switch (source.weighted({14, 3, 2, 1, 1, 1, 2}))
		{
			case 0:
			{
				std::string name = randomName(source);
				auto element = source.pick(ref::validElements());
				if (source.chance(1, 6))
				{
					element.first = static_cast<ElementLayout>(source.irange(-1, 20));
					element.second = static_cast<ElementType>(source.irange(-1, 5));
				}
				auto expected = VertexFormat::AddResult::Succeeded;
				if (!ref::validElement(element.first, element.second))
					expected = VertexFormat::AddResult::ElementInvalid;
				else if (model.find(name) >= 0)
					expected = VertexFormat::AddResult::NameNotUnique;
				text += pbt::format("append %u '%s' %d %d\n", slot, name.substr(0, 40).c_str(),
					static_cast<int>(element.first), static_cast<int>(element.second));
				context.describe(text);
				auto result = format.appendElement(name, element.first, element.second);
				PBT_REQUIRE(context, result == expected, "step %u: appending returned %d instead of %d", step,
					static_cast<int>(result), static_cast<int>(expected));
				if (expected == VertexFormat::AddResult::Succeeded)
				{
					model.elements.push_back(ModelElement{name, element.first, element.second, model.stride});
					model.stride += ref::layoutInfo(element.first).size;
				}
				else
				{
					rejected = true;
					context.label(expected == VertexFormat::AddResult::NameNotUnique ? "name not unique" :
						"element invalid");
				}
				break;
			}
			case 1:
			{
				std::string name = randomName(source);
				text += pbt::format("find %u '%s'\n", slot, name.substr(0, 40).c_str());
				context.describe(text);
				int expected = model.find(name);
				auto found = format.find(name);
				PBT_REQUIRE(context, expected < 0 ? found == format.end() : found == format.begin() + expected,
					"step %u: lookup is wrong", step);
				break;
			}
			case 2:
				text += pbt::format("copy %u = %u\n", slot, other);
				context.describe(text);
				format = static_cast<const VertexFormat&>(formats[other]);
				model = Model(models[other]);
				context.label("copied");
				break;
			case 3:
				text += pbt::format("clear %u\n", slot);
				context.describe(text);
				format.clear();
				model = Model();
				PBT_REQUIRE(context, format == VertexFormat(), "a cleared format differs from a new one");
				context.label("cleared");
				break;
			case 4:
				if (slot == other)
					break;
				text += pbt::format("move %u = %u\n", slot, other);
				context.describe(text);
				format = std::move(formats[other]);
				model = models[other];
				formats[other].clear();
				models[other] = Model();
				context.label("moved");
				break;
			case 5:
			{
				text += pbt::format("replace %u by a moved copy\n", slot);
				context.describe(text);
				VertexFormat copy(format);
				checkFormat(copy, model, context);
				VertexFormat moved(std::move(copy));
				format = VertexFormat();
				format = moved;
				break;
			}
			default:
			{
				// Another one's elements but for one, anywhere.
				std::vector<ModelElement> elements = models[other].elements;
				if (elements.empty())
					break;
				std::size_t at = source.below(elements.size());
				switch (source.below(5))
				{
					case 0:
					{
						std::string name = randomName(source);
						if (models[other].find(name) < 0)
							elements[at].name = name;
						break;
					}
					case 1:
					{
						// Another type of the same size, if there is one.
						auto element = source.pick(ref::validElements());
						for (unsigned k = 0; k < 50 && ref::layoutInfo(element.first).size !=
							ref::layoutInfo(elements[at].layout).size; ++k)
						{
							element = ref::validElements()[(k*37 + at) % ref::validElements().size()];
						}
						elements[at].layout = element.first;
						elements[at].type = element.second;
						break;
					}
					case 2:
						std::swap(elements[at], elements[source.below(elements.size())]);
						break;
					case 3:
						elements.erase(elements.begin() + static_cast<std::ptrdiff_t>(at));
						break;
					default:
						break;
				}
				text += pbt::format("%u = %u but for %zu\n", slot, other, at);
				context.describe(text);
				VertexFormat near;
				Model nearModel;
				for (const ModelElement& element : elements)
				{
					PBT_REQUIRE(context, near.appendElement(element.name, element.layout, element.type) ==
						VertexFormat::AddResult::Succeeded, "step %u: element '%s' is refused", step,
						element.name.c_str());
					nearModel.elements.push_back(element);
					nearModel.elements.back().offset = nearModel.stride;
					nearModel.stride += ref::layoutInfo(element.layout).size;
				}
				format = near;
				model = nearModel;
				context.label("nearly the same elements");
				break;
			}
		}
		for (unsigned i = 0; i < slots; ++i)
		{
			checkFormat(formats[i], models[i], context);
			largest = std::max<unsigned>(largest, static_cast<unsigned>(models[i].elements.size()));
			for (unsigned j = 0; j < slots; ++j)
			{
				PBT_REQUIRE(context, (formats[i] == formats[j]) == (models[i] == models[j]) &&
					(formats[i] != formats[j]) == !(models[i] == models[j]), "step %u: comparison of %u and %u is wrong",
					step, i, j);
				PBT_REQUIRE(context, formats[i].containsElements(formats[j]) == models[i].contains(models[j]),
					"step %u: whether %u contains the elements of %u is wrong", step, i, j);
			}
		}
		context.checked(18);
	}
	context.digest(text);
	if (largest >= 2)
		context.nontrivial();
	context.labelIf(largest >= 5, "five elements and more");
	context.labelIf(rejected, "an addition refused");
}

pbt::Register f01({"F01",
	"Random histories of up to 41 steps on three formats: appending elements with valid and invalid layouts and types "
	"and colliding, empty, long, near equal and arbitrary names, lookups, copies, copies but for one element, moves "
	"and clears. After each step "
	"all three are compared with a list model through every accessor, iterator, lookup, comparison and containment. Now "
	"and then formats of 100-2100 elements, up to 67 kB. "
	"Non-trivial: a format of two elements or more. Distinct by the history.",
	&runFormat, nullptr, nullptr, nullptr, nullptr, false, "Names contain no NUL character.\n"
	"A format that was moved from is cleared before it is used again."});

// -------------------------------------------------------------------------------------------------- F02

struct Name
{
	int kind; // 0 layout, 1 type, 2 primitive.
	int value;
	std::string text;
};

const std::vector<Name>& allNames()
{
	static const std::vector<Name> result = []
	{
		std::vector<Name> names;
		for (const ref::LayoutInfo& info : ref::layouts())
		{
			names.push_back(Name{0, static_cast<int>(info.layout), info.name});
			names.push_back(Name{0, static_cast<int>(info.layout), info.colorName});
		}
		for (const ref::TypeInfo& info : ref::types())
			names.push_back(Name{1, static_cast<int>(info.type), info.name});
		for (const ref::PrimitiveInfo& info : ref::primitives())
			names.push_back(Name{2, static_cast<int>(info.type), info.name});
		return names;
	}();
	return result;
}

std::string lower(std::string text)
{
	for (char& c : text)
	{
		if (c >= 'A' && c <= 'Z')
			c = static_cast<char>(c - 'A' + 'a');
	}
	return text;
}

int lookup(int kind, const char* name)
{
	switch (kind)
	{
		case 0:
			return static_cast<int>(vfc::elementLayoutFromName(name));
		case 1:
			return static_cast<int>(vfc::elementTypeFromName(name));
		default:
			return static_cast<int>(vfc::primitiveTypeFromName(name));
	}
}

void checkName(const std::string& text, Context& context)
{
	// In exactly sized memory.
	std::unique_ptr<char[]> memory(new char[text.size() + 1]);
	std::memcpy(memory.get(), text.c_str(), text.size() + 1);
	for (int kind = 0; kind < 3; ++kind)
	{
		int expected = -1;
		for (const Name& name : allNames())
		{
			if (name.kind == kind && lower(name.text) == lower(text))
				expected = name.value;
		}
		int found = lookup(kind, memory.get());
		static const char* const kinds[] = {"layout", "type", "primitive"};
		PBT_REQUIRE(context, found == expected, "%s '%s' (%s) is %d instead of %d", kinds[kind], text.c_str(),
			ref::hex(text.data(), text.size()).c_str(), found, expected);
		context.labelIf(expected >= 0, "a name");
	}
	context.checked(3);
}

void runNames(Source& source, Context& context)
{
	std::string text = source.pick(allNames()).text;
	switch (source.weighted({4, 4, 3, 2}))
	{
		case 0:
			// Any case.
			for (char& c : text)
			{
				switch (source.below(3))
				{
					case 1:
						c = lower(std::string(1, c))[0];
						break;
					case 2:
						if (c >= 'a' && c <= 'z')
							c = static_cast<char>(c - 'a' + 'A');
						break;
					default:
						break;
				}
			}
			break;
		case 1:
		{
			// A near miss.
			auto pos = source.below(text.size() + 1);
			switch (source.below(6))
			{
				case 0:
					text.insert(pos, 1, static_cast<char>(1 + source.below(255)));
					break;
				case 1:
					if (pos < text.size())
						text.erase(pos, 1);
					break;
				case 2:
					if (pos < text.size())
						text[pos] = static_cast<char>(1 + source.below(255));
					break;
				case 3:
					text = text.substr(0, pos);
					break;
				case 4:
					text += source.pick(allNames()).text;
					break;
				default:
					// Bits that differ like letter case.
					if (pos < text.size() && text[pos] != ' ')
						text[pos] = static_cast<char>(text[pos] ^ 0x20) ? static_cast<char>(text[pos] ^ 0x20) : text[pos];
					break;
			}
			break;
		}
		case 2:
		{
			text.clear();
			unsigned length = source.small(20);
			static const char letters[] = "XYZWRGBAxyzw0123468_UFlNormSInt";
			for (unsigned i = 0; i < length; ++i)
				text += letters[source.below(sizeof(letters) - 1)];
			break;
		}
		default:
		{
			text.clear();
			unsigned length = source.small(300);
			for (unsigned i = 0; i < length; ++i)
				text += static_cast<char>(1 + source.below(255));
			break;
		}
	}
	context.describe("'" + text + "'");
	context.digest(text);
	checkName(text, context);
	if (!text.empty())
		context.nontrivial();
}

void checkText(const char* found, const char* expected, const char* what, int value, Context& context)
{
	bool ok = expected ? found && std::strcmp(found, expected) == 0 : !found;
	PBT_REQUIRE(context, ok, "the %s of %d is %s instead of %s", what, value, found ? found : "null",
		expected ? expected : "null");
	context.checked();
}

void runNamesEnum(std::uint64_t index, Context& context)
{
	context.digest(index);
	context.nontrivial();
	if (index < 256)
	{
		int value = static_cast<int>(index) - 128;
		context.describe(pbt::format("the names of %d", value));
		const char* names[4] = {};
		for (const ref::LayoutInfo& info : ref::layouts())
		{
			if (static_cast<int>(info.layout) == value)
			{
				names[0] = info.name;
				names[1] = info.colorName;
			}
		}
		for (const ref::TypeInfo& info : ref::types())
		{
			if (static_cast<int>(info.type) == value)
				names[2] = info.name;
		}
		for (const ref::PrimitiveInfo& info : ref::primitives())
		{
			if (static_cast<int>(info.type) == value)
				names[3] = info.name;
		}
		auto layout = static_cast<ElementLayout>(value);
		checkText(vfc::elementLayoutName(layout), names[0], "layout name", value, context);
		checkText(vfc::elementLayoutName(layout, false), names[0], "layout name", value, context);
		checkText(vfc::elementLayoutName(layout, true), names[1], "color layout name", value, context);
		checkText(vfc::elementTypeName(static_cast<ElementType>(value)), names[2], "type name", value, context);
		checkText(vfc::primitiveTypeName(static_cast<PrimitiveType>(value)), names[3], "primitive name", value, context);
		if (value >= 0)
			context.label("names of a value");
		return;
	}
	index -= 256;
	if (index < allNames().size())
	{
		// Every case variant of the name, and its prefixes and neighbors.
		std::string text = allNames()[index].text;
		context.describe("all case variants of " + text);
		std::vector<std::size_t> letters;
		for (std::size_t i = 0; i < text.size(); ++i)
		{
			if (lower(std::string(1, text[i])) != text.substr(i, 1) || (text[i] >= 'a' && text[i] <= 'z'))
				letters.push_back(i);
		}
		std::string lowered = lower(text);
		for (std::uint32_t mask = 0; mask < (1U << letters.size()); ++mask)
		{
			std::string variant = lowered;
			for (std::size_t i = 0; i < letters.size(); ++i)
			{
				if (mask & (1U << i))
					variant[letters[i]] = static_cast<char>(variant[letters[i]] - 'a' + 'A');
			}
			checkName(variant, context);
		}
		for (std::size_t i = 0; i <= text.size(); ++i)
		{
			checkName(text.substr(0, i), context);
			checkName(text.substr(i), context);
			for (int c = 1; c < 256; ++c)
			{
				std::string variant = text;
				variant.insert(i, 1, static_cast<char>(c));
				checkName(variant, context);
				if (i < text.size())
				{
					variant = text;
					variant[i] = static_cast<char>(c);
					checkName(variant, context);
				}
			}
		}
		return;
	}
	context.describe("missing name");
	for (int kind = 0; kind < 3; ++kind)
		PBT_REQUIRE(context, lookup(kind, nullptr) == -1, "a missing name is %d", lookup(kind, nullptr));
}

pbt::Property namesProperty()
{
	pbt::Property property = {"F02",
		"Random strings: names in random case, names with a character added, removed or changed, prefixes, "
		"concatenations, strings of the characters of names, arbitrary bytes. Each is looked up as layout, type and "
		"primitive and compared with a table. Non-trivial: not empty. Distinct by the string.",
		&runNames};
	property.enumCount = [](const pbt::Options&) -> std::uint64_t {return 256 + allNames().size() + 1;};
	property.runEnum = &runNamesEnum;
	property.enumRule = "the names of all 256 values of each enumeration; for each name all case variants, prefixes, "
		"suffixes, and every character inserted or replaced at every place; a missing name";
	return property;
}

pbt::Register f02(namesProperty());

// -------------------------------------------------------------------------------------------------- F03

void checkCount(PrimitiveType type, std::uint32_t count, unsigned patchSize, Context& context)
{
	bool expected = ref::countValid(type, count, patchSize);
	bool found = vfc::isVertexCountValid(type, count, patchSize);
	PBT_REQUIRE(context, found == expected, "%u vertices for %s (%d) of patch size %u: %d", count,
		ref::primitiveName(type), static_cast<int>(type), patchSize, found);
	context.checked();
}

void runCounts(Source& source, Context& context)
{
	PrimitiveType type = source.chance(9, 10) ? source.pick(ref::primitives()).type :
		static_cast<PrimitiveType>(source.irange(-128, 127));
	unsigned patchSize = 1;
	switch (source.weighted({4, 3, 2}))
	{
		case 0:
			patchSize = 1 + static_cast<unsigned>(source.below(40));
			break;
		case 1:
			patchSize = static_cast<unsigned>(source.range(1, 0xFFFFFFFF));
			break;
		default:
			patchSize = 0xFFFFFFFFU >> source.below(32);
			break;
	}
	std::uint32_t count = 0;
	switch (source.weighted({3, 3, 3, 2}))
	{
		case 0:
			count = static_cast<std::uint32_t>(source.below(50));
			break;
		case 1:
			count = static_cast<std::uint32_t>(source.bits64());
			break;
		case 2:
			count = patchSize*static_cast<std::uint32_t>(source.below(1000)) +
				static_cast<std::uint32_t>(source.irange(-1, 1));
			break;
		default:
			count = static_cast<std::uint32_t>((1ULL << source.below(33)) - source.below(4));
			break;
	}
	context.describe(pbt::format("%s (%d), %u vertices, patch size %u", ref::primitiveName(type),
		static_cast<int>(type), count, patchSize));
	context.digest(static_cast<unsigned>(type));
	context.digest(count);
	if (type == PrimitiveType::PatchList)
		context.digest(patchSize);
	checkCount(type, count, patchSize, context);
	if (count > 3)
		context.nontrivial();
	context.label(ref::countValid(type, count, patchSize) ? "suits" : "doesn't suit");
}

void runTables(std::uint64_t index, Context& context)
{
	int value = static_cast<int>(index) - 128;
	context.digest(index);
	context.describe(pbt::format("layout %d with all types, primitive %d with small counts", value, value));
	auto layout = static_cast<ElementLayout>(value);
	std::uint32_t size = 0;
	for (const ref::LayoutInfo& info : ref::layouts())
	{
		if (info.layout == layout)
		{
			size = info.size;
			context.nontrivial();
		}
	}
	PBT_REQUIRE(context, vfc::elementLayoutSize(layout) == size, "layout %d has size %u instead of %u", value,
		vfc::elementLayoutSize(layout), size);
	for (int type = -128; type < 128; ++type)
	{
		bool expected = ref::validElement(layout, static_cast<ElementType>(type));
		PBT_REQUIRE(context, vfc::isElementValid(layout, static_cast<ElementType>(type)) == expected,
			"layout %d and type %d are%s valid together", value, type, expected ? "n't" : "");
	}
	context.checked(257);
	auto primitive = static_cast<PrimitiveType>(value);
	for (unsigned patchSize = 1; patchSize <= 40; ++patchSize)
	{
		for (std::uint32_t count = 0; count <= 130; ++count)
			checkCount(primitive, count, patchSize, context);
	}
	if (primitive != PrimitiveType::PatchList)
	{
		for (std::uint32_t count = 0; count <= 130; ++count)
		{
			PBT_REQUIRE(context, vfc::isVertexCountValid(primitive, count) == ref::countValid(primitive, count, 1),
				"%u vertices without a patch size for primitive %d", count, value);
		}
	}
}

pbt::Property tablesProperty()
{
	pbt::Property property = {"F03",
		"Random vertex counts (small, uniform, near powers of two and near multiples of the patch size) and patch sizes "
		"from 1 for every primitive type and for invalid ones, compared with the definition in 64-bit arithmetic. "
		"Non-trivial: more than three vertices. Distinct by primitive, count and patch size.",
		&runCounts};
	property.enumCount = [](const pbt::Options&) -> std::uint64_t {return 256;};
	property.runEnum = &runTables;
	property.enumRule = "size of all 256 layout values and validity with all 256 type values; counts 0 to 130 with patch "
		"sizes 1 to 40 for all 256 primitive values";
	property.assumptions = "A patch list needs a patch size; 0 is left open.";
	return property;
}

pbt::Register f03(tablesProperty());

// -------------------------------------------------------------------------------------------------- F04

// A long array: positions beyond what 16 or 17 bits hold. The contents follow a formula with the writes on top.
void runLongIndices(Source& source, Context& context)
{
	static const IndexType indexTypes[] = {IndexType::UInt16, IndexType::UInt32};
	IndexType type = source.pick(indexTypes);
	unsigned width = ref::indexBytes(type);
	std::size_t count = 65530 + source.below(20);
	if (source.flip())
		count = static_cast<std::size_t>(source.range(65536, 400000));
	std::uint64_t seed = source.bits64();
	std::size_t bytes = count*width;
	std::unique_ptr<std::uint8_t[]> memory(new std::uint8_t[bytes]);
	std::vector<std::uint8_t> expected(bytes);
	for (std::size_t i = 0; i < bytes; ++i)
		memory[i] = expected[i] = static_cast<std::uint8_t>((i*0x9e3779b97f4a7c15ULL ^ seed) >> 32);
	std::string text = pbt::format("%zu indices of type %d\n", count, static_cast<int>(type));
	unsigned steps = 1 + source.small(6);
	for (unsigned step = 0; step < steps; ++step)
	{
		std::size_t position = source.flip() ? count - 1 - source.below(5) : source.below(count);
		if (source.chance(1, 4))
			position = std::min<std::size_t>(count - 1, 65530 + source.below(12));
		auto value = static_cast<std::uint32_t>(source.bits64());
		text += pbt::format("%zu <- %u\n", position, value);
		context.describe(text);
		context.require(vfc::setIndexValue(type, memory.get(), position, value), "not written");
		for (unsigned j = 0; j < width; ++j)
			expected[position*width + j] = static_cast<std::uint8_t>(value >> (8*j));
		PBT_REQUIRE(context, std::memcmp(memory.get(), expected.data(), bytes) == 0,
			"the memory differs from the model after writing %zu", position);
		context.checked(2);
	}
	for (std::size_t k = 0; k < count; ++k)
	{
		std::uint32_t stored = 0;
		for (unsigned j = 0; j < width; ++j)
			stored |= std::uint32_t(expected[k*width + j]) << (8*j);
		std::uint32_t read = vfc::getIndexValue(type, memory.get(), k, static_cast<std::uint32_t>(k));
		PBT_REQUIRE(context, read == stored, "index %zu reads as %u instead of %u", k, read, stored);
	}
	context.checked(count);
	context.digest(text);
	context.digest(seed);
	context.nontrivial();
	context.label("long array");
}

// Positions beyond what 31 or 32 bits of bytes or indices hold, in memory that is mapped where it is touched only.
void runHugeIndices(Source& source, Context& context)
{
	static const IndexType indexTypes[] = {IndexType::UInt16, IndexType::UInt32};
	IndexType type = source.pick(indexTypes);
	unsigned width = ref::indexBytes(type);
	constexpr std::size_t size = std::size_t(24) << 30;
	void* mapped = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mapped == MAP_FAILED)
	{
		context.label("no room for a huge array");
		return;
	}
	std::unique_ptr<void, void (*)(void*)> release(mapped, [](void* data) {munmap(data, size);});
	auto memory = static_cast<std::uint8_t*>(mapped);
	std::map<std::size_t, std::uint32_t> model;
	std::string text = pbt::format("huge array of type %d\n", static_cast<int>(type));
	unsigned steps = 2 + source.small(6);
	for (unsigned step = 0; step < steps; ++step)
	{
		// Around powers of two, in bytes or indices, or anywhere.
		std::size_t position = source.below(size/width);
		if (source.chance(3, 4))
		{
			position = std::size_t(1) << source.range(15, width == 2 ? 33 : 32);
			position += source.below(8);
			if (source.flip())
				position -= 6;
		}
		auto value = static_cast<std::uint32_t>(source.bits64());
		text += pbt::format("%zu <- %u\n", position, value);
		context.describe(text);
		context.require(vfc::setIndexValue(type, memory, position, value), "not written");
		model[position] = width == 2 ? value & 0xFFFF : value;
		for (const auto& stored : model)
		{
			std::uint32_t direct = 0;
			std::memcpy(&direct, memory + stored.first*width, width);
			PBT_REQUIRE(context, direct == stored.second, "%u is stored at %zu instead of %u", direct, stored.first,
				stored.second);
			std::uint32_t read = vfc::getIndexValue(type, memory, stored.first, 5);
			PBT_REQUIRE(context, read == stored.second, "index %zu reads as %u instead of %u", stored.first, read,
				stored.second);
			context.checked(2);
		}
	}
	context.digest(text);
	context.nontrivial();
	context.label("array of gigabytes");
}

void runIndices(Source& source, Context& context)
{
	if (source.chance(1, 2000))
	{
		runHugeIndices(source, context);
		return;
	}
	if (source.chance(1, 200))
	{
		runLongIndices(source, context);
		return;
	}
	static const IndexType indexTypes[] = {IndexType::UInt16, IndexType::UInt32, IndexType::NoIndices};
	IndexType type = source.pick(indexTypes);
	unsigned width = ref::indexBytes(type);
	std::size_t count = 1 + source.small(40);
	std::vector<std::uint32_t> model(count);
	std::size_t bytes = count*std::max(width, 1U);
	// new[] of bytes is aligned for either index type.
	std::unique_ptr<std::uint8_t[]> memory(new std::uint8_t[bytes]);
	std::vector<std::uint8_t> expected(bytes);
	for (std::size_t i = 0; i < bytes; ++i)
		memory[i] = expected[i] = static_cast<std::uint8_t>(source.below(256));
	std::string text = pbt::format("%zu bytes of type %d\n", bytes, static_cast<int>(type));
	unsigned steps = 1 + source.small(20);
	for (unsigned step = 0; step < steps; ++step)
	{
		std::size_t i = source.below(count);
		std::uint32_t value = 0;
		switch (source.below(3))
		{
			case 0:
				value = static_cast<std::uint32_t>(source.below(300));
				break;
			case 1:
				value = 0xFFFFFFFFU - static_cast<std::uint32_t>(source.below(3)) - (source.flip() ? 0xFFFF0000U : 0);
				break;
			default:
				value = static_cast<std::uint32_t>(source.bits64());
				break;
		}
		text += pbt::format("%zu <- %u\n", i, value);
		context.describe(text);
		bool written = vfc::setIndexValue(type, memory.get(), i, value);
		PBT_REQUIRE(context, written == (width > 0), "writing returned %d", written);
		PBT_REQUIRE(context, !vfc::setIndexValue(type, nullptr, i, value), "written to nowhere");
		for (unsigned j = 0; j < width; ++j)
			expected[i*width + j] = static_cast<std::uint8_t>(value >> (8*j));
		PBT_REQUIRE(context, std::memcmp(memory.get(), expected.data(), bytes) == 0, "memory is %s instead of %s",
			ref::hex(memory.get(), bytes).c_str(), ref::hex(expected.data(), bytes).c_str());
		for (std::size_t k = 0; k < count; ++k)
		{
			std::uint32_t stored = 0;
			for (unsigned j = 0; j < width; ++j)
				stored |= std::uint32_t(expected[k*width + j]) << (8*j);
			// The default doesn't matter where there is data, whatever it is.
			std::uint32_t defaults[] = {value ^ 5, stored, 0xFFFF, 0xFFFFFFFF, 0, static_cast<std::uint32_t>(k)};
			for (std::uint32_t other : defaults)
			{
				std::uint32_t read = vfc::getIndexValue(type, memory.get(), k, other);
				PBT_REQUIRE(context, read == (width ? stored : other), "index %zu reads as %u with default %u", k, read,
					other);
			}
			std::uint32_t read = vfc::getIndexValue(type, memory.get(), k);
			PBT_REQUIRE(context, read == (width ? stored : 0xFFFFFFFF), "index %zu reads as %u without a default", k,
				read);
		}
		PBT_REQUIRE(context, vfc::getIndexValue(type, nullptr, i, value) == value, "no default without data");
		PBT_REQUIRE(context, vfc::getIndexValue(type, nullptr, i) == 0xFFFFFFFFU, "wrong default without data");
		context.checked(5 + count);
	}
	context.digest(text);
	context.digest(expected.data(), expected.size());
	if (width && count > 1)
		context.nontrivial();
	context.label(width == 0 ? "no indices" : width == 2 ? "16 bit" : "32 bit");
}

void runLimits(std::uint64_t index, Context& context)
{
	auto type = static_cast<IndexType>(index);
	context.digest(index);
	context.describe(pbt::format("limits of index type %u", static_cast<unsigned>(index)));
	context.nontrivial();
	unsigned size = type == IndexType::UInt16 ? 2 : type == IndexType::UInt32 ? 4 : 0;
	PBT_REQUIRE(context, vfc::indexSize(type) == size, "size %u", vfc::indexSize(type));
	if (size)
	{
		std::uint32_t all = size == 2 ? 0xFFFF : 0xFFFFFFFF;
		PBT_REQUIRE(context, vfc::primitiveRestartIndexValue(type) == all, "restart value %u",
			vfc::primitiveRestartIndexValue(type));
		PBT_REQUIRE(context, vfc::maxIndexValue(type) == all - 1, "maximum %u", vfc::maxIndexValue(type));
	}
	else
	{
		std::uint32_t data[2] = {1, 2};
		PBT_REQUIRE(context, vfc::maxIndexValue(type) == 0, "maximum %u without indices", vfc::maxIndexValue(type));
		PBT_REQUIRE(context, !vfc::setIndexValue(type, data, 0, 7) && data[0] == 1 && data[1] == 2,
			"written without an index type");
		PBT_REQUIRE(context, vfc::getIndexValue(type, data, 0, 9) == 9, "read without an index type");
	}
	context.checked(3);
}

pbt::Property indexProperty()
{
	pbt::Property property = {"F04",
		"Random index arrays of each type in exactly sized memory (some of 65530 to 400000 indices, and sparse ones of 24 GB) with random "
		"histories of writes of small, limit and arbitrary values; after each write all bytes are compared with a byte "
		"model and every index is read back with several defaults, and access without data or type is tried. Non-trivial: more than one index. Distinct by the history.",
		&runIndices};
	property.enumCount = [](const pbt::Options&) -> std::uint64_t {return 256;};
	property.runEnum = &runLimits;
	property.enumRule = "size and limits of all 256 index type values";
	return property;
}

pbt::Register f04(indexProperty());

} // namespace
