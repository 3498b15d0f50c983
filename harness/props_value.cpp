// Element value properties V01 to V04.
#include "ref.h"

#include <VFC/VertexValue.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>

using pbt::Context;
using pbt::Source;
using ref::ElementLayout;
using ref::ElementType;
using ref::Kind;
using vfc::VertexValue;

namespace
{

// Exactly sized memory at a chosen misalignment; the address sanitizer guards the end, a pattern the rest.
class Block
{
public:
	Block(std::size_t size, unsigned misalignment)
		: m_size(size), m_offset(misalignment), m_bytes(new std::uint8_t[size + misalignment])
	{
		for (unsigned i = 0; i < misalignment; ++i)
			m_bytes[i] = static_cast<std::uint8_t>(0xC5 + i);
	}

	std::uint8_t* data() const {return m_bytes.get() + m_offset;}
	std::size_t size() const {return m_size;}
	bool guardIntact() const
	{
		for (unsigned i = 0; i < m_offset; ++i)
		{
			if (m_bytes[i] != static_cast<std::uint8_t>(0xC5 + i))
				return false;
		}
		return true;
	}

private:
	std::size_t m_size;
	unsigned m_offset;
	std::unique_ptr<std::uint8_t[]> m_bytes;
};

struct ElementChoice
{
	ElementLayout layout;
	ElementType type;
	const ref::LayoutInfo* info;

	std::string text() const
	{
		return pbt::format("%s %s", info->name, ref::typeName(type));
	}
};

ElementChoice chooseElement(Source& source)
{
	const auto& element = source.pick(ref::validElements());
	return ElementChoice{element.first, element.second, &ref::layoutInfo(element.first)};
}

bool isNorm(ElementType type)
{
	return type == ElementType::UNorm || type == ElementType::SNorm;
}

bool sameBits(const VertexValue& value, const double expected[4])
{
	for (unsigned i = 0; i < 4; ++i)
	{
		double v = value[i];
		if (std::memcmp(&v, &expected[i], sizeof(double)) != 0)
			return false;
	}
	return true;
}

std::string valueText(const double values[4])
{
	return pbt::format("(%.17g, %.17g, %.17g, %.17g)", values[0], values[1], values[2], values[3]);
}

std::string valueText(const VertexValue& value)
{
	double values[4] = {value[0], value[1], value[2], value[3]};
	return valueText(values);
}

// Compares a decoded value with the reference.
bool decodesRight(const ElementChoice& element, const std::uint8_t* data, const VertexValue& value,
	std::string& why)
{
	double expected[4];
	ref::decode(element.layout, element.type, data, expected);
	for (unsigned i = 0; i < 4; ++i)
	{
		bool ok = ref::sameDouble(value[i], expected[i]);
		// Rounding of the normalization is left open, except for the ends and for absent components.
		if (!ok && isNorm(element.type) && i < element.info->components && std::abs(expected[i]) != 1)
			ok = std::abs(value[i] - expected[i]) <= 1e-14;
		if (ok && expected[i] == 0 && !isNorm(element.type))
			ok = std::signbit(value[i]) == std::signbit(expected[i]);
		if (!ok)
		{
			why = pbt::format("%s bytes %s component %u decodes to %.17g instead of %.17g",
				element.text().c_str(), ref::hex(data, element.info->size).c_str(), i, value[i], expected[i]);
			return false;
		}
	}
	return true;
}

void randomBytes(Source& source, const ElementChoice& element, std::uint8_t* data)
{
	unsigned style = source.weighted({1, 4, 3});
	if (style == 0)
	{
		std::memset(data, 0, element.info->size);
		data[source.below(element.info->size)] = static_cast<std::uint8_t>(source.below(256));
	}
	else if (style == 1)
	{
		for (unsigned i = 0; i < element.info->size; ++i)
			data[i] = static_cast<std::uint8_t>(source.below(256));
	}
	else
	{
		// Codes at the ends and the sign change of the components.
		std::memset(data, 0, element.info->size);
		unsigned fields = element.info->kind == Kind::SharedExp ? 4 : element.info->components;
		for (unsigned i = 0; i < fields; ++i)
		{
			unsigned bits = ref::componentBits(element.layout, i);
			std::uint64_t mask = bits == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << bits) - 1;
			std::uint64_t top = std::uint64_t(1) << (bits - 1);
			std::uint64_t choices[] = {0, 1, mask, mask - 1, top, top - 1, top + 1, mask >> 2, source.bits64()};
			ref::setComponentCode(element.layout, i, data, source.pick(choices) & mask);
		}
	}
}

// -------------------------------------------------------------------------------------------------- V01

void runDecode(Source& source, Context& context)
{
	ElementChoice element = chooseElement(source);
	Block block(element.info->size, static_cast<unsigned>(source.below(8)));
	randomBytes(source, element, block.data());
	context.digest(static_cast<unsigned>(element.layout)*100 + static_cast<unsigned>(element.type));
	context.digest(block.data(), block.size());
	std::string bytes = ref::hex(block.data(), block.size());
	if (context.wantText)
		context.describe(element.text() + " " + bytes);

	// What the value held before doesn't matter.
	double junk = source.flip() ? std::nan("") : -7.25;
	VertexValue value(junk, junk, junk, junk);
	PBT_REQUIRE(context, value.fromData(block.data(), element.layout, element.type), "%s isn't decoded",
		element.text().c_str());
	std::string why;
	if (!decodesRight(element, block.data(), value, why))
		context.fail(why);
	PBT_REQUIRE(context, ref::hex(block.data(), block.size()) == bytes && block.guardIntact(),
		"decoding changed the data");
	context.checked(4);
	context.label(element.info->kind == Kind::Array ? ref::typeName(element.type) : element.info->name);
	for (unsigned i = 0; i < block.size(); ++i)
	{
		if (block.data()[i])
		{
			context.nontrivial();
			break;
		}
	}
}

struct Field
{
	ElementChoice element;
	unsigned component;
	unsigned bits;
};

// Components whose codes can all be tried.
const std::vector<Field>& smallFields()
{
	static const std::vector<Field> result = []
	{
		std::vector<Field> fields;
		for (const auto& valid : ref::validElements())
		{
			ElementChoice element = {valid.first, valid.second, &ref::layoutInfo(valid.first)};
			unsigned count = element.info->kind == Kind::SharedExp ? 4 : element.info->components;
			for (unsigned i = 0; i < count; ++i)
			{
				unsigned bits = ref::componentBits(element.layout, i);
				if (bits <= 16)
					fields.push_back(Field{element, i, bits});
			}
		}
		return fields;
	}();
	return result;
}

std::uint64_t fieldCount(const pbt::Options&)
{
	return smallFields().size();
}

void beginField(const Field& field, Context& context)
{
	context.digest(static_cast<unsigned>(field.element.layout)*1000 +
		static_cast<unsigned>(field.element.type)*10 + field.component);
	context.describe(pbt::format("all %u bit codes of component %u of %s", field.bits, field.component,
		field.element.text().c_str()));
	context.nontrivial();
	context.label("all codes of a component");
}

void runDecodeAll(std::uint64_t index, Context& context)
{
	const Field& field = smallFields()[index];
	beginField(field, context);
	for (unsigned background = 0; background < 3; ++background)
	{
		Block block(field.element.info->size, background);
		for (unsigned i = 0; i < block.size(); ++i)
		{
			block.data()[i] = background == 0 ? 0 : background == 1 ? 0xFF :
				static_cast<std::uint8_t>(pbt::mix64(index*64 + i));
		}
		for (std::uint32_t code = 0; code < (1U << field.bits); ++code)
		{
			ref::setComponentCode(field.element.layout, field.component, block.data(), code);
			VertexValue value(3, 3, 3, 3);
			std::string why;
			if (!value.fromData(block.data(), field.element.layout, field.element.type))
				context.fail(field.element.text() + " isn't decoded");
			if (!decodesRight(field.element, block.data(), value, why))
				context.fail(why);
		}
		context.checked(1U << field.bits);
	}
}

pbt::Property decodeProperty()
{
	pbt::Property property = {"V01",
		"Random elements of every valid layout and type: uniform bytes, single bytes, and codes around the ends and "
		"the sign change of each component, in exactly sized memory at any alignment, decoded over an old value. "
		"The four components are compared with an independent reference decoder. Non-trivial: any byte not zero. "
		"Distinct by layout, type and bytes.",
		&runDecode};
	property.enumCount = &fieldCount;
	property.runEnum = &runDecodeAll;
	property.enumRule = "every code of every component of at most 16 bits (and the shared exponent) of every valid "
		"layout and type, with the other bits all 0, all 1 and mixed";
	property.assumptions = "Normalized values may differ from the reference by 1e-14, except at -1 and 1.";
	return property;
}

pbt::Register v01(decodeProperty());

// -------------------------------------------------------------------------------------------------- V02

double ulps(double value, int count)
{
	for (; count > 0; --count)
		value = std::nextafter(value, std::numeric_limits<double>::infinity());
	for (; count < 0; ++count)
		value = std::nextafter(value, -std::numeric_limits<double>::infinity());
	return value;
}

double generateValue(Source& source, const ElementChoice& element, unsigned component)
{
	static const double simple[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 100, -0.0, 1.5, 2.5, 0.25};
	static const double special[] = {std::numeric_limits<double>::infinity(),
		-std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
		std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
		std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), 65504, 65519.999,
		65520, 65536, 65535.5, 65408, 65024, 64512, 1e10, -1e10, 4294967295.0, 4294967295.5, 2147483647.5,
		-2147483648.5, 9223372036854775807.0, 18446744073709551615.0, 9223372036854774784.0,
		18446744073709549568.0, 3.4028235677973366e38, 3.4028234663852886e38, 1e300};
	switch (source.weighted({2, 4, 4, 3, 3, 3, 3, 2}))
	{
		case 0:
			return source.pick(simple);
		case 1:
		{
			// Uniform, a little beyond the normalized range.
			double unit = static_cast<double>(source.below(1ULL << 53))/static_cast<double>(1ULL << 53);
			return unit*3 - 1.5;
		}
		case 2:
		{
			// At or right beside a value a code stands for, or half way to the next.
			std::uint8_t data[32] = {};
			unsigned bits = ref::componentBits(element.layout, component);
			std::uint64_t code = source.below(bits == 64 ? 0 : std::uint64_t(1) << bits);
			ref::setComponentCode(element.layout, component, data, code);
			if (element.info->kind == Kind::SharedExp)
				ref::setComponentCode(element.layout, 3, data, source.below(32));
			double value[4], next[4];
			ref::decode(element.layout, element.type, data, value);
			ref::setComponentCode(element.layout, component, data, code + 1);
			ref::decode(element.layout, element.type, data, next);
			double result = source.flip() ? value[component] : value[component]*0.5 + next[component]*0.5;
			return ulps(result, source.irange(-2, 2));
		}
		case 3:
			return source.pick(special)*(source.chance(1, 4) ? -1 : 1);
		case 4:
		{
			std::uint64_t bits = source.bits64();
			double result;
			std::memcpy(&result, &bits, sizeof(result));
			return result;
		}
		case 5:
		{
			auto bits = static_cast<std::uint32_t>(source.bits64());
			float result;
			std::memcpy(&result, &bits, sizeof(result));
			return result;
		}
		case 6:
			return ulps(std::ldexp(1 + 0.25*static_cast<double>(source.below(4)), source.irange(-30, 66)),
				source.irange(-1, 1))*(source.flip() ? -1 : 1);
		default:
			return static_cast<double>(static_cast<std::int64_t>(source.bits64()) >> source.below(63)) +
				(source.flip() ? 0.5 : 0);
	}
}

void encode(const ElementChoice& element, const double value[4], std::uint8_t* out, unsigned misalignment,
	std::uint8_t fill, Context& context)
{
	Block block(element.info->size, misalignment);
	std::memset(block.data(), fill, block.size());
	VertexValue vertexValue(value[0], value[1], value[2], value[3]);
	PBT_REQUIRE(context, vertexValue.toData(block.data(), element.layout, element.type), "%s isn't encoded",
		element.text().c_str());
	PBT_REQUIRE(context, block.guardIntact(), "encoding %s wrote before the element", element.text().c_str());
	PBT_REQUIRE(context, sameBits(vertexValue, value), "encoding changed the value");
	std::memcpy(out, block.data(), block.size());
}

void requireAcceptable(const ElementChoice& element, const double value[4], const std::uint8_t* data,
	Context& context)
{
	std::string why;
	if (!ref::acceptable(element.layout, element.type, value, data, &why))
		context.fail(why);
}

void runEncode(Source& source, Context& context)
{
	ElementChoice element = chooseElement(source);
	unsigned components = element.info->components;
	auto misalignment = static_cast<unsigned>(source.below(8));
	double value[4] = {0, 0, 0, 1};
	for (unsigned i = 0; i < 4; ++i)
		value[i] = generateValue(source, element, std::min(i, components - 1));
	context.digest(static_cast<unsigned>(element.layout)*100 + static_cast<unsigned>(element.type));
	context.digest(value, sizeof(double)*components);
	if (context.wantText)
		context.describe(element.text() + " " + valueText(value));

	std::uint8_t data[32], again[32];
	encode(element, value, data, misalignment, 0x00, context);
	encode(element, value, again, 0, 0xFF, context);
	PBT_REQUIRE(context, std::memcmp(data, again, element.info->size) == 0,
		"%s of %s: not every bit is written, or it depends on what was there", element.text().c_str(),
		valueText(value).c_str());
	requireAcceptable(element, value, data, context);
	context.checked(components);

	bool shared = element.info->kind == Kind::SharedExp;
	// Each component on its own.
	if (!shared)
	{
		double other[4];
		for (unsigned i = 0; i < 4; ++i)
			other[i] = generateValue(source, element, std::min(i, components - 1));
		auto kept = static_cast<unsigned>(source.below(components));
		double mixed[4] = {other[0], other[1], other[2], other[3]};
		mixed[kept] = value[kept];
		encode(element, mixed, again, misalignment, 0x5A, context);
		PBT_REQUIRE(context,
			ref::componentCode(element.layout, kept, data) == ref::componentCode(element.layout, kept, again),
			"%s: component %u is stored as %llx from %s but as %llx from %s", element.text().c_str(), kept,
			static_cast<unsigned long long>(ref::componentCode(element.layout, kept, data)), valueText(value).c_str(),
			static_cast<unsigned long long>(ref::componentCode(element.layout, kept, again)),
			valueText(mixed).c_str());
		requireAcceptable(element, mixed, again, context);

		// Order.
		encode(element, other, again, misalignment, 0x5A, context);
		requireAcceptable(element, other, again, context);
		double a[4], b[4];
		ref::decode(element.layout, element.type, data, a);
		ref::decode(element.layout, element.type, again, b);
		for (unsigned i = 0; i < components; ++i)
		{
			if (value[i] <= other[i])
				PBT_REQUIRE(context, a[i] <= b[i], "%s component %u: %.17g is stored as %.17g but %.17g as %.17g",
					element.text().c_str(), i, value[i], a[i], other[i], b[i]);
			if (value[i] >= other[i])
				PBT_REQUIRE(context, a[i] >= b[i], "%s component %u: %.17g is stored as %.17g but %.17g as %.17g",
					element.text().c_str(), i, value[i], a[i], other[i], b[i]);
		}
		context.checked(3*components);
	}
	context.label(element.info->kind == Kind::Array ? ref::typeName(element.type) : element.info->name);
	for (unsigned i = 0; i < components; ++i)
	{
		if (value[i] != 0)
			context.nontrivial();
		context.labelIf(std::isnan(value[i]), "NaN");
		context.labelIf(std::isinf(value[i]), "infinite");
		context.labelIf(std::abs(value[i]) > 1 && isNorm(element.type), "saturating normalized");
	}
}

void runEncodeAll(std::uint64_t index, Context& context)
{
	const Field& field = smallFields()[index];
	beginField(field, context);
	const ElementChoice& element = field.element;
	if (element.info->kind == Kind::SharedExp && field.component == 3)
		return; // Not a component of its own.
	double last[4] = {};
	bool haveLast = false;
	std::uint8_t data[32] = {}, stored[32];
	// In the order of the values.
	std::uint32_t count = 1U << field.bits;
	for (std::uint32_t step = 0; step < count; ++step)
	{
		std::uint32_t code = step;
		bool isSigned = element.type == ElementType::SNorm || element.type == ElementType::SInt;
		if (isSigned)
			code = (step + count/2) & (count - 1);
		else if (element.info->kind == Kind::Array && element.type == ElementType::Float)
			code = step < count/2 ? count - 1 - step : step - count/2;
		ref::setComponentCode(element.layout, field.component, data, code);
		if (element.info->kind == Kind::SharedExp)
			ref::setComponentCode(element.layout, 3, data, pbt::mix64(index*4096 + step) & 31);
		double center[4];
		ref::decode(element.layout, element.type, data, center);
		double mid = center[field.component];
		if (std::isnan(mid))
			continue;
		double value[4] = {center[0], center[1], center[2], center[3]};
		double between = haveLast ? mid*0.5 + last[field.component]*0.5 : mid;
		double tries[] = {ulps(between, -1), between, ulps(between, 1), ulps(mid, -1), mid, ulps(mid, 1)};
		for (double v : tries)
		{
			value[field.component] = v;
			VertexValue vertexValue(value[0], value[1], value[2], value[3]);
			if (!vertexValue.toData(stored, element.layout, element.type))
				context.fail(element.text() + " isn't encoded");
			requireAcceptable(element, value, stored, context);
			if (v == mid && element.info->kind != Kind::SharedExp && mid != 0)
			{
				PBT_REQUIRE(context, ref::componentCode(element.layout, field.component, stored) == code,
					"%s component %u: the value %.17g of code %x is stored as %llx", element.text().c_str(),
					field.component, mid, code, static_cast<unsigned long long>(
						ref::componentCode(element.layout, field.component, stored)));
			}
		}
		context.checked(6);
		std::memcpy(last, center, sizeof(last));
		haveLast = true;
	}
}

pbt::Property encodeProperty()
{
	pbt::Property property = {"V02",
		"Random values for every valid layout and type: simple, uniform, at, beside and half way between codes, at "
		"the limits of all formats, random bit patterns, powers of two, integers of any size, infinities and NaN. "
		"The stored code must be acceptable to an independent reference (nearest or saturated; within a step for "
		"packed floats), the same whatever memory held before and whatever the other components are, and in order "
		"with that of another random value. Non-trivial: a component of the layout isn't zero. Distinct by layout, "
		"type and value.",
		&runEncode};
	property.enumCount = &fieldCount;
	property.runEnum = &runEncodeAll;
	property.enumRule = "for every code of every component of at most 16 bits of every valid layout and type: its "
		"value, the middle to the code before, and the doubles beside both";
	property.assumptions = "NaN may give any code of integer and normalized formats.\n"
		"Halves may be rounded twice, by way of float.\n"
		"An infinite value may be stored as infinity or as the largest value in packed unsigned floats.";
	return property;
}

pbt::Register v02(encodeProperty());

// -------------------------------------------------------------------------------------------------- V03

void roundTrip(const ElementChoice& element, const std::uint8_t* data, Context& context)
{
	VertexValue value;
	std::uint8_t again[32] = {};
	if (!value.fromData(data, element.layout, element.type) ||
		!value.toData(again, element.layout, element.type))
	{
		context.fail(element.text() + " isn't decoded and encoded");
	}
	if (std::memcmp(data, again, element.info->size) == 0)
		return;
	auto wrong = [&](unsigned i)
	{
		VertexValue after;
		after.fromData(again, element.layout, element.type);
		context.fail(pbt::format("%s %s decodes to %s, which encodes to %s, component %u differs (%s)",
			element.text().c_str(), ref::hex(data, element.info->size).c_str(), valueText(value).c_str(),
			ref::hex(again, element.info->size).c_str(), i, valueText(after).c_str()));
	};
	double before[4], after[4];
	ref::decode(element.layout, element.type, data, before);
	ref::decode(element.layout, element.type, again, after);
	for (unsigned i = 0; i < element.info->components; ++i)
	{
		if (element.info->kind == Kind::SharedExp)
		{
			if (before[i] != after[i])
				wrong(i);
			continue;
		}
		if (ref::componentCode(element.layout, i, data) == ref::componentCode(element.layout, i, again))
			continue;
		bool wide = ref::componentBits(element.layout, i) == 64 && element.type != ElementType::Float;
		if (std::isnan(before[i]) && std::isnan(after[i]))
			continue;
		if (wide && before[i] == after[i])
			continue;
		wrong(i);
	}
}

void runRoundTrip(Source& source, Context& context)
{
	ElementChoice element = chooseElement(source);
	Block block(element.info->size, 0);
	randomBytes(source, element, block.data());
	context.digest(static_cast<unsigned>(element.layout)*100 + static_cast<unsigned>(element.type));
	context.digest(block.data(), block.size());
	if (context.wantText)
		context.describe(element.text() + " " + ref::hex(block.data(), block.size()));
	roundTrip(element, block.data(), context);
	context.checked();
	context.label(element.info->kind == Kind::Array ? ref::typeName(element.type) : element.info->name);
	for (unsigned i = 0; i < block.size(); ++i)
	{
		if (block.data()[i])
		{
			context.nontrivial();
			break;
		}
	}
}

void runRoundTripAll(std::uint64_t index, Context& context)
{
	const Field& field = smallFields()[index];
	beginField(field, context);
	for (unsigned background = 0; background < 3; ++background)
	{
		std::uint8_t data[32];
		for (unsigned i = 0; i < sizeof(data); ++i)
		{
			data[i] = background == 0 ? 0 : background == 1 ? 0x3F :
				static_cast<std::uint8_t>(pbt::mix64(index*77 + i));
		}
		for (std::uint32_t code = 0; code < (1U << field.bits); ++code)
		{
			ref::setComponentCode(field.element.layout, field.component, data, code);
			roundTrip(field.element, data, context);
		}
		context.checked(1U << field.bits);
	}
}

pbt::Property roundTripProperty()
{
	pbt::Property property = {"V03",
		"Random elements of every valid layout and type as for V01, decoded and encoded again: the same bytes, or for "
		"NaN, redundant shared exponents and 64 bit integers the same value by the reference decoder. Non-trivial: "
		"any byte not zero. Distinct by layout, type and bytes.",
		&runRoundTrip};
	property.enumCount = &fieldCount;
	property.runEnum = &runRoundTripAll;
	property.enumRule = "every code of every component of at most 16 bits of every valid layout and type, over three "
		"settings of the other bits";
	return property;
}

pbt::Register v03(roundTripProperty());

// -------------------------------------------------------------------------------------------------- V04

// Whether a pair must be usable (1), must be refused (0) or is left open (-1).
int usable(int layout, int type)
{
	auto elementLayout = static_cast<ElementLayout>(layout);
	auto elementType = static_cast<ElementType>(type);
	if (ref::validElement(elementLayout, elementType))
		return 1;
	for (const ref::LayoutInfo& info : ref::layouts())
	{
		// Normalized 32 and 64-bit components aren't valid in a format, but have a meaning.
		if (info.layout == elementLayout && info.kind == Kind::Array && info.bits > 16 && isNorm(elementType))
			return -1;
	}
	return 0;
}

const double usualBounds[8] = {-1, 0, -100, 3, 1, 0, 1e5, 5};

void checkUsable(int layout, int type, const double value[4], const std::uint8_t bytes[48], const double bounds[8],
	Context& context)
{
	auto elementLayout = static_cast<ElementLayout>(layout);
	auto elementType = static_cast<ElementType>(type);
	VertexValue low(bounds[0], bounds[1], bounds[2], bounds[3]), high(bounds[4], bounds[5], bounds[6], bounds[7]);
	std::unique_ptr<std::uint8_t[]> memory(new std::uint8_t[48]);
	std::memcpy(memory.get(), bytes, 48);
	VertexValue v(value[0], value[1], value[2], value[3]);

	PBT_REQUIRE(context, !v.fromData(nullptr, elementLayout, elementType), "missing data decoded (%d, %d)", layout,
		type);
	PBT_REQUIRE(context, sameBits(v, value), "value changed by missing data (%d, %d)", layout, type);
	PBT_REQUIRE(context, !v.toData(nullptr, elementLayout, elementType), "encoded to nowhere (%d, %d)", layout, type);
	PBT_REQUIRE(context, !v.toData(nullptr, elementLayout, elementType, low, high),
		"encoded to nowhere with bounds (%d, %d)", layout, type);
	PBT_REQUIRE(context, sameBits(v, value), "value changed by encoding (%d, %d)", layout, type);
	context.checked(4);

	int expected = usable(layout, type);
	if (expected < 0)
		return;
	bool encoded = v.toData(memory.get(), elementLayout, elementType);
	PBT_REQUIRE(context, encoded == (expected == 1), "layout %d, type %d: encoding returned %d", layout, type, encoded);
	std::size_t size = expected == 1 ? ref::layoutInfo(elementLayout).size : 0;
	PBT_REQUIRE(context, std::memcmp(memory.get() + size, bytes + size, 48 - size) == 0,
		"layout %d, type %d: memory changed beyond the element", layout, type);
	std::memcpy(memory.get(), bytes, 48);
	encoded = v.toData(memory.get(), elementLayout, elementType, low, high);
	PBT_REQUIRE(context, encoded == (expected == 1), "layout %d, type %d: encoding with bounds returned %d", layout,
		type, encoded);
	PBT_REQUIRE(context, std::memcmp(memory.get() + size, bytes + size, 48 - size) == 0,
		"layout %d, type %d: memory changed beyond the element, with bounds", layout, type);
	PBT_REQUIRE(context, sameBits(v, value), "value changed by encoding (%d, %d)", layout, type);

	std::memcpy(memory.get(), bytes, 48);
	bool decoded = v.fromData(memory.get(), elementLayout, elementType);
	PBT_REQUIRE(context, decoded == (expected == 1), "layout %d, type %d: decoding returned %d", layout, type, decoded);
	PBT_REQUIRE(context, decoded || sameBits(v, value), "layout %d, type %d: refused decoding changed the value to %s",
		layout, type, valueText(v).c_str());
	PBT_REQUIRE(context, std::memcmp(memory.get(), bytes, 48) == 0, "decoding changed the data");
	context.checked(7);

	// Agreement with what a format accepts.
	vfc::VertexFormat format;
	bool accepted = format.appendElement("a", elementLayout, elementType) == vfc::VertexFormat::AddResult::Succeeded;
	PBT_REQUIRE(context, accepted == (expected == 1), "layout %d, type %d: format accepts: %d, decodes: %d", layout,
		type, accepted, decoded);
}

void describeUsable(int layout, int type, const double value[4], Context& context)
{
	context.describe(pbt::format("layout %d, type %d, value %s", layout, type, valueText(value).c_str()));
	context.digest((static_cast<unsigned>(layout + 1000))*4096 + static_cast<unsigned>(type + 1000));
	context.digest(value, sizeof(double)*4);
	context.nontrivial();
	int expected = usable(layout, type);
	context.label(expected == 1 ? "usable" : expected == 0 ? "to be refused" : "left open");
}

void runUsable(Source& source, Context& context)
{
	int layout = source.chance(3, 4) ? source.irange(-2, 21) : source.irange(-128, 127);
	int type = source.chance(3, 4) ? source.irange(-2, 6) : source.irange(-128, 127);
	double value[4];
	for (double& v : value)
	{
		std::uint64_t bits = source.bits64();
		if (source.flip())
			std::memcpy(&v, &bits, sizeof(v));
		else
			v = static_cast<double>(bits % 1000) - 500;
	}
	std::uint8_t bytes[48];
	for (std::uint8_t& byte : bytes)
		byte = static_cast<std::uint8_t>(source.below(256));
	// Any bounds, often without an extent, also in all components.
	double bounds[8];
	unsigned style = static_cast<unsigned>(source.below(4));
	for (unsigned i = 0; i < 8; ++i)
	{
		static const double special[] = {0, 1, -1, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, NAN};
		bounds[i] = style == 0 ? usualBounds[i] : source.pick(special);
		if (i >= 4 && (style == 1 || (style == 2 && source.flip())))
			bounds[i] = bounds[i - 4];
	}
	describeUsable(layout, type, value, context);
	if (context.wantText)
	{
		context.describe(pbt::format("layout %d, type %d, value %s, bounds %s %s", layout, type, valueText(value).c_str(),
			valueText(bounds).c_str(), valueText(bounds + 4).c_str()));
	}
	context.digest(bounds, sizeof(bounds));
	checkUsable(layout, type, value, bytes, bounds, context);
}

constexpr int enumLayouts = 46, enumTypes = 21;

void runUsableEnum(std::uint64_t index, Context& context)
{
	int layout = static_cast<int>(index/enumTypes) - 5;
	int type = static_cast<int>(index % enumTypes) - 5;
	double value[4] = {0.25, -3, 1e300, 7};
	std::uint8_t bytes[48];
	for (unsigned i = 0; i < 48; ++i)
		bytes[i] = static_cast<std::uint8_t>(0xA0 + i);
	describeUsable(layout, type, value, context);
	checkUsable(layout, type, value, bytes, usualBounds, context);
	const double none[8] = {2, 2, 2, 2, 2, 2, 2, 2};
	checkUsable(layout, type, value, bytes, none, context);
}

pbt::Property usableProperty()
{
	pbt::Property property = {"V04",
		"Random values and bytes for random layout and type numbers, valid and not, in -128 to 127, with and without "
		"memory and bounds: refused exactly when the reference says the pair is unusable, leaving value and memory "
		"bit for bit, and writing nothing past the element otherwise; a vertex format accepts exactly the usable "
		"pairs. Every case is non-trivial. Distinct by layout, type and value.",
		&runUsable};
	property.enumCount = [](const pbt::Options&) -> std::uint64_t {return enumLayouts*enumTypes;};
	property.runEnum = &runUsableEnum;
	property.enumRule = "all layouts -5 to 40 with all types -5 to 15";
	property.assumptions = "Normalized types with 32 and 64 bit components, which formats refuse, may be encoded.";
	return property;
}

pbt::Register v04(usableProperty());

} // namespace
