// Runs the command-line tool.
#pragma once

#include "core.h"

#include <string>
#include <vector>

namespace process
{

enum class Input {Empty, File, Pipe, Closed, Directory, WriteOnly};
enum class Output {Pipe, FullDevice, Closed, ReadOnly, BrokenPipe, File};

struct Launch
{
	std::string tool;
	std::string cwd;
	std::string argv0 = "vfc";
	std::vector<std::string> args;
	Input input = Input::Empty;
	std::string inputText;
	Output output = Output::Pipe;
	std::string outputFile;      // For Output::File, created anew.
	std::int64_t fileLimit = -1; // Files can't grow beyond.
	bool unprivileged = false;   // As an unprivileged user.

	std::string text() const;
};

struct Run
{
	bool skipped = false; // The fault couldn't be arranged.
	bool exited = false;
	int code = 0;
	int signal = 0;
	std::string out;
	std::string err;

	std::string text() const;
};

Run run(const Launch& launch);

// Requires that the tool ended in an orderly way: with success and nothing on standard error, or with a failure code,
// a message and nothing on standard output. Returns whether it succeeded.
bool orderly(const Run& run, pbt::Context& context);
bool succeeded(const Run& run);

} // namespace process
