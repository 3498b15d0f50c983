// Reference definitions of the element formats, written from the documentation of the formats, independent
// of the code under test. Values are doubles; encodings are judged by an acceptance predicate.
#pragma once

#include "core.h"

#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>

#include <cmath>
#include <limits>
#include <string>
#include <vector>

namespace ref
{

using vfc::ElementLayout;
using vfc::ElementType;
using vfc::IndexType;
using vfc::PrimitiveType;

enum class Kind {Array, WXYZ, WZYX, UFloat, SharedExp};

struct LayoutInfo
{
	ElementLayout layout;
	const char* name;
	const char* colorName;
	Kind kind;
	unsigned components;
	unsigned bits; // Per component for arrays.
	unsigned size;
};

const std::vector<LayoutInfo>& layouts();
const LayoutInfo& layoutInfo(ElementLayout layout);

struct TypeInfo
{
	ElementType type;
	const char* name;
};
const std::vector<TypeInfo>& types();
const char* typeName(ElementType type);

struct PrimitiveInfo
{
	PrimitiveType type;
	const char* name;
};
const std::vector<PrimitiveInfo>& primitives();
const char* primitiveName(PrimitiveType type);

bool validElement(ElementLayout layout, ElementType type);
// All valid layout and type pairs.
const std::vector<std::pair<ElementLayout, ElementType>>& validElements();

// Bits of component i of the element at data, unsigned.
std::uint64_t componentCode(ElementLayout layout, unsigned i, const std::uint8_t* data);
unsigned componentBits(ElementLayout layout, unsigned i);
unsigned componentCount(ElementLayout layout);
void setComponentCode(ElementLayout layout, unsigned i, std::uint8_t* data, std::uint64_t code);

// Number of explicit mantissa bits with an exponent of 5 bits.
double smallFloat(std::uint32_t code, unsigned mantissaBits, bool sign);
double halfValue(std::uint16_t code);

void decode(ElementLayout layout, ElementType type, const std::uint8_t* data, double out[4]);

bool sameDouble(double a, double b); // Equal, or both NaN.

// Whether data is a correct encoding of the value. rel is the relative error allowed for the value itself.
bool acceptable(ElementLayout layout, ElementType type, const double value[4], const std::uint8_t* data,
	std::string* why, double rel = 0);

bool isStrip(PrimitiveType type); // Strips and fans, where restarts are recognized.
unsigned primitiveMinimum(PrimitiveType type, unsigned patchPoints);
bool countValid(PrimitiveType type, std::uint64_t count, std::uint64_t patchPoints);

std::uint32_t restartValue(IndexType type);
unsigned indexBytes(IndexType type);

std::string hex(const void* data, std::size_t size);

} // namespace ref
