// V05: half floats with and without the processor's instructions.
#include "half_soft.h"
#include "ref.h"

#include <VFC/VertexValue.h>

#include <algorithm>
#include <cmath>
#include <cstring>

using pbt::Context;
using pbt::Source;
using ref::ElementLayout;
using ref::ElementType;

namespace
{

const ElementLayout halfLayouts[4] = {ElementLayout::X16, ElementLayout::X16Y16, ElementLayout::X16Y16Z16,
	ElementLayout::X16Y16Z16W16};

bool decode(bool soft, double out[4], const void* data, unsigned components)
{
	ElementLayout layout = halfLayouts[components - 1];
	if (soft)
		return softDecode(out, data, static_cast<int>(layout), static_cast<int>(ElementType::Float));
	vfc::VertexValue value(out[0], out[1], out[2], out[3]);
	bool result = value.fromData(data, layout, ElementType::Float);
	for (unsigned i = 0; i < 4; ++i)
		out[i] = value[i];
	return result;
}

bool encode(bool soft, void* data, const double values[4], unsigned components)
{
	ElementLayout layout = halfLayouts[components - 1];
	if (soft)
		return softEncode(data, values, static_cast<int>(layout), static_cast<int>(ElementType::Float));
	vfc::VertexValue value(values[0], values[1], values[2], values[3]);
	return value.toData(data, layout, ElementType::Float);
}

const char* pathName(bool soft)
{
	return soft ? "portable" : "default";
}

const double* halfTable()
{
	static const std::vector<double> table = []
	{
		std::vector<double> values(65536);
		for (unsigned i = 0; i < 65536; ++i)
			values[i] = ref::halfValue(static_cast<std::uint16_t>(i));
		return values;
	}();
	return table.data();
}

// Whether a half is a good enough encoding.
bool goodHalf(double value, std::uint16_t code, const char*& why)
{
	double stored = halfTable()[code];
	if (std::isnan(value))
	{
		why = "NaN is lost";
		return std::isnan(stored);
	}
	why = "a NaN";
	if (std::isnan(stored))
		return false;
	why = "the sign differs";
	if (std::signbit(value) != ((code & 0x8000) != 0))
		return false;
	double magnitude = std::abs(value);
	if (magnitude >= 65536)
	{
		why = "infinity expected";
		return std::isinf(stored);
	}
	if (magnitude > 65504)
	{
		why = "infinity or the largest half expected";
		return std::isinf(stored) || std::abs(stored) == 65504;
	}
	why = "more than a step away";
	if (std::isinf(stored))
		return false;
	if (stored == value)
		return true;
	int exponent = magnitude == 0 ? -14 : std::max(std::ilogb(magnitude), -14);
	return std::abs(stored - value) <= std::ldexp(1.0, exponent - 10);
}

void requirePortable(Context& context)
{
	PBT_REQUIRE(context, softUsesHardware() != 1,
		"half-float instructions are used though the processor doesn't report them");
	context.labelIf(softUsesHardware() == 0, "portable code confirmed");
}

double generateValue(Source& source)
{
	static const double special[] = {0.0, -0.0, 1, -1, 65504, 65505, 65519.99, 65520, 65535, 65536, 1e6, 1e39, 1e300,
		std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 6.103515625e-5,
		5.9604644775390625e-8, 2.98023223876953125e-8, 2.9802322387695316e-8, 1e-8, 1e-45, 1e-300, 4.9e-324};
	double value;
	switch (source.weighted({2, 4, 3, 2}))
	{
		case 0:
			value = source.pick(special);
			break;
		case 1:
		{
			// At, beside and half way between halves.
			auto code = static_cast<std::uint16_t>(source.below(0x7C00));
			double a = ref::halfValue(code), b = code == 0x7BFF ? 65536 : ref::halfValue(static_cast<std::uint16_t>(code + 1));
			value = source.flip() ? a : (a + b)/2;
			int nudge = source.irange(-2, 2);
			if (source.flip())
			{
				auto single = static_cast<float>(value);
				for (; nudge; nudge += nudge < 0 ? 1 : -1)
					single = std::nextafter(single, nudge < 0 ? -1e30f : 1e30f);
				value = single;
			}
			else
			{
				for (; nudge; nudge += nudge < 0 ? 1 : -1)
					value = std::nextafter(value, nudge < 0 ? -1e30 : 1e30);
			}
			break;
		}
		case 2:
		{
			auto bits = static_cast<std::uint32_t>(source.bits64());
			float single;
			std::memcpy(&single, &bits, sizeof(single));
			return single;
		}
		default:
			value = std::ldexp(1 + static_cast<double>(source.below(1 << 20))/(1 << 20), source.irange(-27, 17));
			break;
	}
	return source.flip() ? -value : value;
}

void checkEncode(const double values[4], unsigned components, Context& context)
{
	for (int soft = 0; soft < 2; ++soft)
	{
		std::uint8_t data[8];
		if (!encode(soft, data, values, components))
			context.fail("halves aren't encoded");
		for (unsigned i = 0; i < components; ++i)
		{
			auto code = static_cast<std::uint16_t>(data[2*i] | data[2*i + 1] << 8);
			const char* why = "";
			PBT_REQUIRE(context, goodHalf(values[i], code, why), "%s code: component %u of %u, %.17g, is stored as %04x "
				"(%.17g): %s", pathName(soft), i, components, values[i], code, ref::halfValue(code), why);
		}
	}
}

void runHalves(Source& source, Context& context)
{
	requirePortable(context);
	auto components = 1 + static_cast<unsigned>(source.below(4));
	double values[4];
	for (double& v : values)
		v = generateValue(source);
	std::uint16_t codes[4];
	for (std::uint16_t& code : codes)
		code = static_cast<std::uint16_t>(source.below(65536));
	context.digest(components);
	context.digest(values, sizeof(double)*components);
	context.digest(codes, sizeof(std::uint16_t)*components);
	if (context.wantText)
	{
		context.describe(pbt::format("%u components, values %.17g %.17g %.17g %.17g, codes %04x %04x %04x %04x",
			components, values[0], values[1], values[2], values[3], codes[0], codes[1], codes[2], codes[3]));
	}
	checkEncode(values, components, context);

	std::uint8_t bytes[8];
	for (unsigned i = 0; i < components; ++i)
	{
		bytes[2*i] = static_cast<std::uint8_t>(codes[i]);
		bytes[2*i + 1] = static_cast<std::uint8_t>(codes[i] >> 8);
	}
	// Exactly as much memory as the element takes.
	std::vector<std::uint8_t> data(bytes, bytes + 2*components);
	for (int soft = 0; soft < 2; ++soft)
	{
		double out[4] = {7, 7, 7, 7};
		if (!decode(soft, out, data.data(), components))
			context.fail("halves aren't decoded");
		for (unsigned i = 0; i < 4; ++i)
		{
			double expected = i < components ? ref::halfValue(codes[i]) : i == 3 ? 1 : 0;
			bool ok = ref::sameDouble(out[i], expected) && (std::isnan(expected) ||
				std::signbit(out[i]) == std::signbit(expected));
			PBT_REQUIRE(context, ok, "%s code: component %u of %u (%04x) decodes to %.17g instead of %.17g",
				pathName(soft), i, components, codes[i], out[i], expected);
		}
		// One at a time.
		std::uint8_t together[8], alone[2];
		encode(soft, together, values, components);
		for (unsigned i = 0; i < components; ++i)
		{
			double single[4] = {values[i], 0, 0, 1};
			encode(soft, alone, single, 1);
			PBT_REQUIRE(context, std::memcmp(alone, together + 2*i, 2) == 0,
				"%s code: component %u, %.17g, is stored as %02x%02x on its own but as %02x%02x among %u", pathName(soft),
				i, values[i], alone[1], alone[0], together[2*i + 1], together[2*i], components);
		}
	}
	context.checked(8*components);
	context.nontrivial();
	bool special = false;
	for (unsigned i = 0; i < components; ++i)
		special = special || std::isnan(values[i]) || std::isinf(values[i]) || std::abs(values[i]) >= 65504;
	context.labelIf(special, "beyond the range of halves");
	context.label(components == 1 ? "1 component" : components == 2 ? "2 components" : components == 3 ?
		"3 components" : "4 components");
}

constexpr std::uint64_t patternBlocks = 256, floatBlocks = 4096;

std::uint64_t enumCount(const pbt::Options& options)
{
	return patternBlocks + (options.thorough ? floatBlocks : floatBlocks/64);
}

void runEnum(std::uint64_t index, Context& context)
{
	requirePortable(context);
	context.digest(index);
	context.nontrivial();
	if (index < patternBlocks)
	{
		context.describe(pbt::format("the 256 half patterns from %04x", static_cast<unsigned>(index*256)));
		for (unsigned i = 0; i < 256; ++i)
		{
			auto code = static_cast<std::uint16_t>(index*256 + i);
			for (unsigned components = 1; components <= 4; ++components)
			{
				for (unsigned place = 0; place < components; ++place)
				{
					std::uint8_t data[8], again[8];
					for (unsigned j = 0; j < 8; ++j)
						data[j] = static_cast<std::uint8_t>(pbt::mix64(code*16 + j));
					data[2*place] = static_cast<std::uint8_t>(code);
					data[2*place + 1] = static_cast<std::uint8_t>(code >> 8);
					double expected = halfTable()[code];
					for (int soft = 0; soft < 2; ++soft)
					{
						double out[4] = {};
						if (!decode(soft, out, data, components) || !encode(soft, again, out, components))
							context.fail("halves aren't decoded and encoded");
						PBT_REQUIRE(context, ref::sameDouble(out[place], expected),
							"%s code: component %u of %u (%04x) decodes to %.17g instead of %.17g", pathName(soft), place,
							components, code, out[place], expected);
						PBT_REQUIRE(context, std::isnan(expected) || std::memcmp(data + 2*place, again + 2*place, 2) == 0,
							"%s code: component %u of %u comes back as %02x%02x instead of %04x", pathName(soft), place,
							components, again[2*place + 1], again[2*place], code);
					}
					context.checked(2);
				}
			}
		}
		return;
	}
	// Floats, four at a time: all of them in the thorough tier.
	std::uint64_t block = index - patternBlocks;
	std::uint64_t stride = context.options.thorough ? 1 : 64;
	std::uint64_t blocks = context.options.thorough ? floatBlocks : floatBlocks/64;
	std::uint64_t count = (1ULL << 32)/stride/blocks;
	context.describe(pbt::format("%llu floats from %08llx, every %llu", static_cast<unsigned long long>(count),
		static_cast<unsigned long long>(block*count*stride), static_cast<unsigned long long>(stride)));
	for (std::uint64_t i = 0; i < count; i += 4)
	{
		double values[4];
		for (unsigned j = 0; j < 4; ++j)
		{
			auto bits = static_cast<std::uint32_t>(((block*count + i + j)*stride) +
				(stride > 1 ? pbt::mix64(i + j) % stride : 0));
			float single;
			std::memcpy(&single, &bits, sizeof(single));
			values[j] = single;
		}
		checkEncode(values, 4, context);
	}
	context.checked(2*count);
}

pbt::Property halfProperty()
{
	pbt::Property property = {"V05",
		"Random elements of one to four halves and random values (at, beside and between halves, the ends of the range, "
		"all magnitudes, any float) for two copies of the library in one program, one of which is told that the "
		"processor has no half-float instructions. Decoded values equal the reference in both; encoded ones are at most "
		"a step off, with sign, zero, infinity and NaN kept, and the same alone as beside others. Every case is "
		"non-trivial. Distinct by components, values and codes.",
		&runHalves};
	property.enumCount = &enumCount;
	property.runEnum = &runEnum;
	property.enumRule = "all 65536 patterns at every place of one to four components, in blocks of 256; floats encoded in "
		"blocks: one in 64 in the quick tier, all 2^32 in the thorough tier";
	property.assumptions = "Finite values above 65504 and below 65536 may become infinite or the largest half.";
	return property;
}

pbt::Register v05(halfProperty());

} // namespace
