// The library as on a processor without half-float instructions, see no_f16c.h.
#pragma once

bool softDecode(double out[4], const void* data, int layout, int type);
bool softEncode(void* data, const double values[4], int layout, int type);
// 1 if the copy uses hardware instructions all the same, 0 if not, -1 if that can't be told.
int softUsesHardware();
