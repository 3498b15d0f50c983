// Compiled, as the second copy of the library, with vfc defined as vfc_soft.
#include "half_soft.h"

#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>

namespace vfc
{
extern const bool hasHardwareHalfFloat __attribute__((weak));
}

bool softDecode(double out[4], const void* data, int layout, int type)
{
	vfc::VertexValue value(out[0], out[1], out[2], out[3]);
	bool result = value.fromData(data, static_cast<vfc::ElementLayout>(layout), static_cast<vfc::ElementType>(type));
	for (unsigned i = 0; i < 4; ++i)
		out[i] = value[i];
	return result;
}

bool softEncode(void* data, const double values[4], int layout, int type)
{
	vfc::VertexValue value(values[0], values[1], values[2], values[3]);
	return value.toData(data, static_cast<vfc::ElementLayout>(layout), static_cast<vfc::ElementType>(type));
}

int softUsesHardware()
{
	const bool* flag = &vfc::hasHardwareHalfFloat;
	// Keeps the compiler from deciding that an address is never null.
	asm volatile("" : "+r"(flag));
	return flag ? *flag : -1;
}
