// Random text, and random changes to texts and trees.
#pragma once

#include "core.h"
#include "json.h"

namespace mutate
{

void appendUtf8(std::string& out, unsigned code);
// Any characters but NUL, as UTF-8.
std::string randomText(pbt::Source& source, unsigned maxLength);
// One change anywhere in a tree.
void mutateTree(pbt::Source& source, json::Value& root);
// A few changed characters.
void mutateText(pbt::Source& source, std::string& text);
// Tokens in any order.
std::string randomJson(pbt::Source& source);

} // namespace mutate
