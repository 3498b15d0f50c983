#include "ref.h"

#include <algorithm>

namespace ref
{

const std::vector<LayoutInfo>& layouts()
{
	using L = ElementLayout;
	static const std::vector<LayoutInfo> table =
	{
		{L::X8, "X8", "R8", Kind::Array, 1, 8, 1},
		{L::X8Y8, "X8Y8", "R8G8", Kind::Array, 2, 8, 2},
		{L::X8Y8Z8, "X8Y8Z8", "R8G8B8", Kind::Array, 3, 8, 3},
		{L::X8Y8Z8W8, "X8Y8Z8W8", "R8G8B8A8", Kind::Array, 4, 8, 4},
		{L::W2X10Y10Z10, "W2X10Y10Z10", "A2R10G10B10", Kind::WXYZ, 4, 0, 4},
		{L::W2Z10Y10X10, "W2Z10Y10X10", "A2B10G10R10", Kind::WZYX, 4, 0, 4},
		{L::X16, "X16", "R16", Kind::Array, 1, 16, 2},
		{L::X16Y16, "X16Y16", "R16G16", Kind::Array, 2, 16, 4},
		{L::X16Y16Z16, "X16Y16Z16", "R16G16B16", Kind::Array, 3, 16, 6},
		{L::X16Y16Z16W16, "X16Y16Z16W16", "R16G16B16A16", Kind::Array, 4, 16, 8},
		{L::X32, "X32", "R32", Kind::Array, 1, 32, 4},
		{L::X32Y32, "X32Y32", "R32G32", Kind::Array, 2, 32, 8},
		{L::X32Y32Z32, "X32Y32Z32", "R32G32B32", Kind::Array, 3, 32, 12},
		{L::X32Y32Z32W32, "X32Y32Z32W32", "R32G32B32A32", Kind::Array, 4, 32, 16},
		{L::X64, "X64", "R64", Kind::Array, 1, 64, 8},
		{L::X64Y64, "X64Y64", "R64G64", Kind::Array, 2, 64, 16},
		{L::X64Y64Z64, "X64Y64Z64", "R64G64B64", Kind::Array, 3, 64, 24},
		{L::X64Y64Z64W64, "X64Y64Z64W64", "R64G64B64A64", Kind::Array, 4, 64, 32},
		{L::Z10Y11X11_UFloat, "Z10Y11X11_UFloat", "B10G11R11_UFloat", Kind::UFloat, 3, 0, 4},
		{L::E5Z9Y9X9_UFloat, "E5Z9Y9X9_UFloat", "E5B9G9R9_UFloat", Kind::SharedExp, 3, 0, 4}
	};
	return table;
}

const LayoutInfo& layoutInfo(ElementLayout layout)
{
	for (const LayoutInfo& info : layouts())
	{
		if (info.layout == layout)
			return info;
	}
	throw pbt::Failure{"unknown layout"};
}

const std::vector<TypeInfo>& types()
{
	using T = ElementType;
	static const std::vector<TypeInfo> table =
	{
		{T::UNorm, "UNorm"}, {T::SNorm, "SNorm"}, {T::UInt, "UInt"}, {T::SInt, "SInt"}, {T::Float, "Float"}
	};
	return table;
}

const char* typeName(ElementType type)
{
	for (const TypeInfo& info : types())
	{
		if (info.type == type)
			return info.name;
	}
	return "?";
}

const std::vector<PrimitiveInfo>& primitives()
{
	using P = PrimitiveType;
	static const std::vector<PrimitiveInfo> table =
	{
		{P::PointList, "PointList"}, {P::LineList, "LineList"}, {P::LineStrip, "LineStrip"},
		{P::TriangleList, "TriangleList"}, {P::TriangleStrip, "TriangleStrip"},
		{P::TriangleFan, "TriangleFan"}, {P::PatchList, "PatchList"}
	};
	return table;
}

const char* primitiveName(PrimitiveType type)
{
	for (const PrimitiveInfo& info : primitives())
	{
		if (info.type == type)
			return info.name;
	}
	return "?";
}

bool validElement(ElementLayout layout, ElementType type)
{
	const LayoutInfo* info = nullptr;
	for (const LayoutInfo& cur : layouts())
	{
		if (cur.layout == layout)
			info = &cur;
	}
	if (!info)
		return false;
	bool knownType = false;
	for (const TypeInfo& cur : types())
		knownType = knownType || cur.type == type;
	if (!knownType)
		return false;
	bool isFloat = type == ElementType::Float;
	bool isNorm = type == ElementType::UNorm || type == ElementType::SNorm;
	switch (info->kind)
	{
		case Kind::UFloat:
		case Kind::SharedExp:
			return isFloat;
		case Kind::WXYZ:
		case Kind::WZYX:
			return !isFloat;
		case Kind::Array:
			if (isFloat)
				return info->bits >= 16;
			if (isNorm)
				return info->bits <= 16;
			return true;
	}
	return false;
}

const std::vector<std::pair<ElementLayout, ElementType>>& validElements()
{
	static const std::vector<std::pair<ElementLayout, ElementType>> result = []
	{
		std::vector<std::pair<ElementLayout, ElementType>> v;
		// The simplest alternative first.
		v.emplace_back(ElementLayout::X32, ElementType::Float);
		for (const LayoutInfo& layout : layouts())
		{
			for (const TypeInfo& type : types())
			{
				if (validElement(layout.layout, type.type) &&
					!(layout.layout == ElementLayout::X32 && type.type == ElementType::Float))
				{
					v.emplace_back(layout.layout, type.type);
				}
			}
		}
		return v;
	}();
	return result;
}

namespace
{

// Shift and width of the fields of the packed layouts.
void field(Kind kind, unsigned i, unsigned& shift, unsigned& width)
{
	static const unsigned wxyz[4] = {20, 10, 0, 30};
	static const unsigned wzyx[4] = {0, 10, 20, 30};
	static const unsigned ufloat[3] = {0, 11, 22};
	static const unsigned ufloatWidth[3] = {11, 11, 10};
	static const unsigned shared[4] = {0, 9, 18, 27};
	switch (kind)
	{
		case Kind::WXYZ:
			shift = wxyz[i];
			width = i == 3 ? 2 : 10;
			return;
		case Kind::WZYX:
			shift = wzyx[i];
			width = i == 3 ? 2 : 10;
			return;
		case Kind::UFloat:
			shift = ufloat[i];
			width = ufloatWidth[i];
			return;
		case Kind::SharedExp:
			shift = shared[i];
			width = i == 3 ? 5 : 9;
			return;
		case Kind::Array:
			break;
	}
	shift = width = 0;
}

std::uint64_t little(const std::uint8_t* data, unsigned bytes)
{
	std::uint64_t value = 0;
	for (unsigned i = 0; i < bytes; ++i)
		value |= std::uint64_t(data[i]) << (8*i);
	return value;
}

std::int64_t signExtend(std::uint64_t code, unsigned bits)
{
	if (bits == 64)
		return static_cast<std::int64_t>(code);
	if (code >> (bits - 1))
		return static_cast<std::int64_t>(code) - (std::int64_t(1) << bits);
	return static_cast<std::int64_t>(code);
}

} // namespace

unsigned componentCount(ElementLayout layout)
{
	return layoutInfo(layout).components;
}

unsigned componentBits(ElementLayout layout, unsigned i)
{
	const LayoutInfo& info = layoutInfo(layout);
	if (info.kind == Kind::Array)
		return info.bits;
	unsigned shift, width;
	field(info.kind, i, shift, width);
	return width;
}

std::uint64_t componentCode(ElementLayout layout, unsigned i, const std::uint8_t* data)
{
	const LayoutInfo& info = layoutInfo(layout);
	if (info.kind == Kind::Array)
		return little(data + i*info.bits/8, info.bits/8);
	unsigned shift, width;
	field(info.kind, i, shift, width);
	return (little(data, 4) >> shift) & ((1U << width) - 1);
}

void setComponentCode(ElementLayout layout, unsigned i, std::uint8_t* data, std::uint64_t code)
{
	const LayoutInfo& info = layoutInfo(layout);
	if (info.kind == Kind::Array)
	{
		for (unsigned j = 0; j < info.bits/8; ++j)
			data[i*info.bits/8 + j] = static_cast<std::uint8_t>(code >> (8*j));
		return;
	}
	unsigned shift, width;
	field(info.kind, i, shift, width);
	std::uint64_t mask = ((std::uint64_t(1) << width) - 1) << shift;
	std::uint64_t value = (little(data, 4) & ~mask) | ((code << shift) & mask);
	for (unsigned j = 0; j < 4; ++j)
		data[j] = static_cast<std::uint8_t>(value >> (8*j));
}

double smallFloat(std::uint32_t code, unsigned mantissaBits, bool sign)
{
	double signum = 1;
	if (sign && (code >> (mantissaBits + 5)) & 1)
		signum = -1;
	std::uint32_t exponent = (code >> mantissaBits) & 31;
	std::uint32_t mantissa = code & ((1U << mantissaBits) - 1);
	double scale = std::pow(2.0, -static_cast<double>(mantissaBits));
	if (exponent == 31)
	{
		return mantissa ? std::numeric_limits<double>::quiet_NaN() :
			signum*std::numeric_limits<double>::infinity();
	}
	if (exponent == 0)
		return signum*mantissa*scale*std::pow(2.0, -14);
	return signum*(1 + mantissa*scale)*std::pow(2.0, static_cast<double>(exponent) - 15);
}

double halfValue(std::uint16_t code)
{
	return smallFloat(code, 10, true);
}

void decode(ElementLayout layout, ElementType type, const std::uint8_t* data, double out[4])
{
	out[0] = out[1] = out[2] = 0;
	out[3] = 1;
	const LayoutInfo& info = layoutInfo(layout);
	if (info.kind == Kind::UFloat)
	{
		out[0] = smallFloat(static_cast<std::uint32_t>(componentCode(layout, 0, data)), 6, false);
		out[1] = smallFloat(static_cast<std::uint32_t>(componentCode(layout, 1, data)), 6, false);
		out[2] = smallFloat(static_cast<std::uint32_t>(componentCode(layout, 2, data)), 5, false);
		return;
	}
	if (info.kind == Kind::SharedExp)
	{
		double exponent = static_cast<double>(componentCode(layout, 3, data));
		for (unsigned i = 0; i < 3; ++i)
		{
			out[i] = static_cast<double>(componentCode(layout, i, data))*
				std::pow(2.0, exponent - 15 - 9);
		}
		return;
	}
	for (unsigned i = 0; i < info.components; ++i)
	{
		std::uint64_t code = componentCode(layout, i, data);
		unsigned bits = componentBits(layout, i);
		switch (type)
		{
			case ElementType::UNorm:
				out[i] = static_cast<double>(code)/(std::pow(2.0, bits) - 1);
				break;
			case ElementType::SNorm:
			{
				double lowest = -std::pow(2.0, bits - 1);
				double offset = static_cast<double>(signExtend(code, bits)) - lowest;
				out[i] = 2*offset/(std::pow(2.0, bits) - 1) - 1;
				break;
			}
			case ElementType::UInt:
				out[i] = static_cast<double>(code);
				break;
			case ElementType::SInt:
				out[i] = static_cast<double>(signExtend(code, bits));
				break;
			case ElementType::Float:
				if (bits == 16)
					out[i] = halfValue(static_cast<std::uint16_t>(code));
				else if (bits == 32)
				{
					float value;
					auto code32 = static_cast<std::uint32_t>(code);
					std::memcpy(&value, &code32, 4);
					out[i] = value;
				}
				else
					std::memcpy(&out[i], &code, 8);
				break;
			default:
				break;
		}
	}
}

bool sameDouble(double a, double b)
{
	return a == b || (std::isnan(a) && std::isnan(b));
}

bool acceptable(ElementLayout layout, ElementType type, const double value[4], const std::uint8_t* data,
	std::string* why, double rel)
{
	const LayoutInfo& info = layoutInfo(layout);
	auto wrong = [&](unsigned i, const char* what)
	{
		if (why)
		{
			double decoded[4];
			decode(layout, type, data, decoded);
			*why = pbt::format("%s %s component %u: value %.17g stored as %s (code %llx, decodes to %.17g): %s",
				info.name, typeName(type), i, value[i], hex(data, info.size).c_str(),
				static_cast<unsigned long long>(componentCode(layout, i, data)), decoded[i], what);
		}
		return false;
	};

	if (info.kind == Kind::SharedExp)
	{
		double clamped[3];
		double largest = 0;
		for (unsigned i = 0; i < 3; ++i)
		{
			if (std::isnan(value[i]))
				return true;
			clamped[i] = std::min(std::max(value[i], 0.0), 65408.0);
			largest = std::max(largest, clamped[i]);
		}
		int exponent = largest > 0 ? std::max(std::ilogb(largest) + 1 + 15, 0) : 0;
		double step = std::pow(2.0, exponent - 24);
		double decoded[4];
		decode(layout, type, data, decoded);
		for (unsigned i = 0; i < 3; ++i)
		{
			if (!(std::abs(decoded[i] - clamped[i]) <= step*1.0001))
				return wrong(i, "off by more than a step of the shared exponent");
		}
		return true;
	}

	for (unsigned i = 0; i < info.components; ++i)
	{
		double v = value[i];
		std::uint64_t code = componentCode(layout, i, data);
		unsigned bits = componentBits(layout, i);
		if (info.kind == Kind::UFloat)
		{
			unsigned mantissa = bits - 5;
			double decoded = smallFloat(static_cast<std::uint32_t>(code), mantissa, false);
			double largest = smallFloat((30U << mantissa) | ((1U << mantissa) - 1), mantissa, false);
			if (std::isnan(v))
			{
				if (!std::isnan(decoded))
					return wrong(i, "NaN expected");
			}
			else if (v <= 0)
			{
				if (code != 0)
					return wrong(i, "0 expected");
			}
			else if (v > largest)
			{
				if (decoded != largest && !(std::isinf(v) && std::isinf(decoded)))
					return wrong(i, "largest value expected");
			}
			else
			{
				int exponent = std::max(std::ilogb(v), -14);
				double step = std::pow(2.0, exponent - static_cast<int>(mantissa));
				if (!(std::abs(decoded - v) < step*1.0001))
					return wrong(i, "off by a step or more");
			}
			continue;
		}

		switch (type)
		{
			case ElementType::UNorm:
			{
				if (std::isnan(v))
					break;
				double ideal = std::min(std::max(v, 0.0), 1.0)*(std::pow(2.0, bits) - 1);
				if (!(std::abs(static_cast<double>(code) - ideal) <= 0.5 + 1e-6))
					return wrong(i, "not the nearest code");
				break;
			}
			case ElementType::SNorm:
			{
				if (std::isnan(v))
					break;
				double ideal = (std::min(std::max(v, -1.0), 1.0)*0.5 + 0.5)*(std::pow(2.0, bits) - 1);
				double offset = static_cast<double>(signExtend(code, bits)) + std::pow(2.0, bits - 1);
				if (!(std::abs(offset - ideal) <= 0.5 + 1e-6))
					return wrong(i, "not the nearest code");
				break;
			}
			case ElementType::UInt:
			case ElementType::SInt:
			{
				if (std::isnan(v))
					break;
				long double stored, low, high;
				if (type == ElementType::UInt)
				{
					stored = static_cast<long double>(code);
					low = 0;
					high = std::pow(2.0L, static_cast<int>(bits)) - 1;
				}
				else
				{
					stored = static_cast<long double>(signExtend(code, bits));
					low = -std::pow(2.0L, static_cast<int>(bits) - 1);
					high = std::pow(2.0L, static_cast<int>(bits) - 1) - 1;
				}
				long double ideal = std::min(std::max(static_cast<long double>(v), low), high);
				long double slack = 0.5L + std::abs(ideal)*(rel + 1e-18L);
				if (rel > 0)
					slack += 1e-6L;
				if (!(std::abs(stored - ideal) <= slack))
					return wrong(i, "not the nearest integer in range");
				break;
			}
			case ElementType::Float:
				if (bits == 64)
				{
					double stored;
					std::memcpy(&stored, &code, 8);
					if (!sameDouble(stored, v) && !(std::abs(stored - v) <= std::abs(v)*rel) &&
						!(rel > 0 && std::abs(stored - v) < 1e-15))
					{
						return wrong(i, "not the value");
					}
				}
				else if (bits == 32)
				{
					float stored;
					auto code32 = static_cast<std::uint32_t>(code);
					std::memcpy(&stored, &code32, 4);
					bool ok = std::isnan(v) ? std::isnan(stored) : stored == static_cast<float>(v);
					if (!ok && rel > 0 && !std::isnan(v))
					{
						ok = stored == static_cast<float>(v*(1 + rel)) || stored == static_cast<float>(v*(1 - rel)) ||
							std::abs(stored - v) < 1e-15;
					}
					if (!ok)
						return wrong(i, "not the nearest float");
				}
				else
				{
					double stored = halfValue(static_cast<std::uint16_t>(code));
					if (std::isnan(v))
					{
						if (!std::isnan(stored))
							return wrong(i, "NaN expected");
					}
					else if (std::abs(v) >= 65520)
					{
						// Rounding to float first may carry values just below to the boundary.
						if (!std::isinf(stored) || (stored < 0) != (v < 0))
							return wrong(i, "infinity expected");
					}
					else if (std::isinf(stored))
					{
						if (!(std::abs(v) > 65519.99) || (stored < 0) != (v < 0))
							return wrong(i, "finite value expected");
					}
					else
					{
						int exponent = v == 0 ? -14 : std::max(std::ilogb(v), -14);
						double step = std::pow(2.0, exponent - 10);
						if (!(std::abs(stored - v) <= step*(0.5 + 1.0/4096)))
							return wrong(i, "not the nearest half");
						if (std::signbit(stored) != std::signbit(v) && !(rel > 0 && std::abs(v) < 1e-12))
							return wrong(i, "wrong sign");
					}
				}
				break;
			default:
				return wrong(i, "no such type");
		}
	}
	return true;
}

bool isStrip(PrimitiveType type)
{
	return type == PrimitiveType::LineStrip || type == PrimitiveType::TriangleStrip ||
		type == PrimitiveType::TriangleFan;
}

unsigned primitiveMinimum(PrimitiveType type, unsigned patchPoints)
{
	switch (type)
	{
		case PrimitiveType::PointList:
			return 1;
		case PrimitiveType::LineList:
		case PrimitiveType::LineStrip:
			return 2;
		case PrimitiveType::TriangleList:
		case PrimitiveType::TriangleStrip:
		case PrimitiveType::TriangleFan:
			return 3;
		case PrimitiveType::PatchList:
			return patchPoints;
		default:
			return 1;
	}
}

bool countValid(PrimitiveType type, std::uint64_t count, std::uint64_t patchPoints)
{
	switch (type)
	{
		case PrimitiveType::PointList:
			return true;
		case PrimitiveType::LineList:
			return count % 2 == 0;
		case PrimitiveType::TriangleList:
			return count % 3 == 0;
		case PrimitiveType::PatchList:
			return count % patchPoints == 0;
		case PrimitiveType::LineStrip:
			return count == 0 || count >= 2;
		case PrimitiveType::TriangleStrip:
		case PrimitiveType::TriangleFan:
			return count == 0 || count >= 3;
		default:
			return false;
	}
}

std::uint32_t restartValue(IndexType type)
{
	return type == IndexType::UInt16 ? 0xFFFFU : 0xFFFFFFFFU;
}

unsigned indexBytes(IndexType type)
{
	return type == IndexType::UInt16 ? 2 : type == IndexType::UInt32 ? 4 : 0;
}

std::string hex(const void* data, std::size_t size)
{
	std::string result;
	for (std::size_t i = 0; i < size; ++i)
		result += pbt::format("%02x", static_cast<const std::uint8_t*>(data)[i]);
	return result;
}

} // namespace ref
