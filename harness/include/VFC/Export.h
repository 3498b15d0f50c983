#pragma once
#define VFC_EXPORT
#define VFC_NO_EXPORT
