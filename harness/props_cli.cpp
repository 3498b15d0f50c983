// Properties of the command-line tool as a whole: T01 to T04.
#include "json.h"
#include "mesh.h"
#include "mutate.h"
#include "process.h"

#include <algorithm>
#include <cctype>
#include <cmath>
#include <fstream>
#include <iterator>
#include <map>
#include <set>

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

using config::Config;
using mesh::Bytes;
using mesh::Case;
using pbt::Context;
using pbt::Source;
using process::Input;
using process::Launch;
using process::Output;
using process::Run;
using ref::IndexType;
using ref::PrimitiveType;

namespace
{

// ------------------------------------------------------------------------------------------- scratch files

void removeTree(const std::string& path)
{
	struct stat info;
	if (path.find("/vfcpbt.") == std::string::npos || lstat(path.c_str(), &info) != 0)
		return;
	if (S_ISDIR(info.st_mode))
	{
		chmod(path.c_str(), 0700);
		if (DIR* dir = opendir(path.c_str()))
		{
			std::vector<std::string> names;
			while (dirent* entry = readdir(dir))
			{
				std::string name = entry->d_name;
				if (name != "." && name != "..")
					names.push_back(name);
			}
			closedir(dir);
			for (const std::string& name : names)
				removeTree(path + "/" + name);
		}
		rmdir(path.c_str());
	}
	else
		unlink(path.c_str());
}

void makeDir(const std::string& path)
{
	mkdir(path.c_str(), 0755);
}

void writeFile(const std::string& path, const void* data, std::size_t size)
{
	std::ofstream stream(path, std::ios::binary | std::ios::trunc);
	stream.write(static_cast<const char*>(data), static_cast<std::streamsize>(size));
	stream.close();
	if (!stream)
		throw pbt::Failure{"harness: can't write " + path};
}

void writeFile(const std::string& path, const std::string& text)
{
	writeFile(path, text.data(), text.size());
}

bool readFile(const std::string& path, Bytes& out)
{
	struct stat info;
	if (stat(path.c_str(), &info) != 0 || !S_ISREG(info.st_mode))
		return false;
	std::ifstream stream(path, std::ios::binary);
	out.assign(std::istreambuf_iterator<char>(stream), std::istreambuf_iterator<char>());
	return stream.good() || stream.eof();
}

std::string realPath(const std::string& path)
{
	char* resolved = realpath(path.c_str(), nullptr);
	std::string result = resolved ? resolved : "";
	std::free(resolved);
	return result;
}

// All files below a directory, with their contents.
void snapshot(const std::string& directory, const std::string& prefix, std::map<std::string, Bytes>& out)
{
	DIR* dir = opendir(directory.c_str());
	if (!dir)
		return;
	while (dirent* entry = readdir(dir))
	{
		std::string name = entry->d_name;
		if (name == "." || name == "..")
			continue;
		std::string path = directory + "/" + name;
		struct stat info;
		if (lstat(path.c_str(), &info) != 0)
			continue;
		if (S_ISDIR(info.st_mode))
			snapshot(path, prefix + name + "/", out);
		else if (S_ISREG(info.st_mode))
			readFile(path, out[prefix + name]);
	}
	closedir(dir);
}

// ---------------------------------------------------------------------------------------- inputs of the tool

// What the tool reads, before deciding how it is passed.
struct Job
{
	Config config;
	std::vector<Bytes> vertexData;
	std::vector<Bytes> indexData;
};

config::Format formatOf(const mesh::Format& format)
{
	config::Format result;
	for (const mesh::Element& element : format.elements)
		result.push_back(config::Element{element.name, element.layout, element.type});
	return result;
}

Job jobOf(Source& source, const Case& testCase)
{
	Job job;
	for (const mesh::Format& format : testCase.output)
		job.config.output.push_back(formatOf(format));
	job.config.indexType = testCase.indexType;
	job.config.primitive = testCase.primitive;
	job.config.patchPoints = testCase.patchPoints;
	for (const mesh::Stream& stream : testCase.streams)
	{
		config::Stream cur;
		cur.format = formatOf(stream.format);
		cur.indexType = stream.indexType;
		job.config.streams.push_back(cur);
		job.vertexData.push_back(stream.data);
		job.indexData.push_back(stream.indexBytes());
	}
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			auto transform = static_cast<int>(testCase.transforms[i][j]);
			if (transform != 0 || source.chance(1, 8))
				job.config.transforms.emplace_back(testCase.output[i].elements[j].name, transform);
		}
	}
	for (std::size_t i = job.config.transforms.size(); i > 1; --i)
		std::swap(job.config.transforms[i - 1], job.config.transforms[i - 1 - source.below(i)]);
	// Of several transforms for an element the last one counts.
	for (unsigned i = source.chance(1, 4) ? 1 + source.small(3) : 0; i > 0 && !job.config.transforms.empty(); --i)
	{
		std::size_t last = source.below(job.config.transforms.size());
		std::string name = job.config.transforms[last].first;
		job.config.transforms.insert(job.config.transforms.begin() + static_cast<std::ptrdiff_t>(source.below(last + 1)),
			{name, static_cast<int>(source.below(4))});
	}
	return job;
}

// Other names, the same in the output and the input.
void renameElements(Source& source, Case& testCase)
{
	std::map<std::string, std::string> names;
	unsigned next = 0;
	auto rename = [&](mesh::Format& format)
	{
		for (mesh::Element& element : format.elements)
		{
			auto found = names.find(element.name);
			if (found == names.end())
			{
				std::string name = mutate::randomText(source, 10) + "#" + std::to_string(next++);
				found = names.emplace(element.name, name).first;
			}
			element.name = found->second;
		}
	};
	for (mesh::Format& format : testCase.output)
		rename(format);
	for (mesh::Stream& stream : testCase.streams)
		rename(stream.format);
}

std::string base64Of(const Bytes& data)
{
	return "base64:" + json::base64Encode(data);
}

void embedData(Job& job)
{
	for (std::size_t i = 0; i < job.config.streams.size(); ++i)
	{
		config::Stream& stream = job.config.streams[i];
		stream.vertexData = base64Of(job.vertexData[i]);
		if (stream.indexType != IndexType::NoIndices)
			stream.indexData = base64Of(job.indexData[i]);
	}
}

// How the files of a case lie: root/work is the working directory, root/conf another one.
struct Place
{
	std::string root;
	std::string work;

	explicit Place(const Context& context)
		: root(context.options.scratch + "/case"), work(root + "/work")
	{
		removeTree(root);
		makeDir(root);
		makeDir(work);
	}
	~Place()
	{
		removeTree(root);
	}
};

struct Passing
{
	bool fromInput = false;
	std::string configDir; // As the tool sees it, relative to work unless absolute.
	std::string configName;
	bool files = false;
};

std::string absoluteOf(const Place& place, const std::string& path)
{
	return !path.empty() && path[0] == '/' ? path : place.work + "/" + path;
}

// A data file somewhere, and the string that names it.
std::string putData(Source& source, const Place& place, const std::string& baseDir, const Bytes& data, unsigned number,
	Context& context)
{
	static const char* const names[] = {"data", "v.dat", "a b", "base64", "%s%n", "\xc3\xa9\xe2\x82\xac", "-o", "x\"y",
		"it's", ".hidden", "vertices.0.dat", "back\\slash"};
	std::string name = source.pick(names) + std::to_string(number);
	if (source.chance(1, 5))
	{
		// Numbered first, so that names differ.
		name = std::to_string(number) + "-";
		std::string odd = mutate::randomText(source, source.flip() ? 6 : 100);
		for (char c : odd)
		{
			if (c != '/' && c != '\0' && name.size() < 200)
				name += c;
		}
		if (!json::validUtf8(name))
			name = std::to_string(number) + " ";
		context.label("data file with an odd name");
	}
	else if (source.chance(1, 5))
		name += source.pick({' ', '.', '\t', '\n', '~', '*'});
	std::string base = absoluteOf(place, baseDir);
	std::string prefix;
	switch (source.weighted({4, 2, 2, 1, 2, 1, 3, 2}))
	{
		case 7:
		{
			// Further up, but not out.
			std::string real = realPath(base), root = realPath(place.root);
			std::size_t depth = 0;
			if (real.compare(0, root.size(), root) == 0)
				depth = static_cast<std::size_t>(std::count(real.begin() + static_cast<std::ptrdiff_t>(root.size()), real.end(), '/'));
			for (std::size_t up = source.below(depth + 1); up > 0; --up)
				prefix += "../";
			break;
		}
		case 6:
			// Files of the same name in different directories.
			prefix = "n" + std::to_string(number) + "/";
			name = "data";
			makeDir(base + "/n" + std::to_string(number));
			break;
		case 0:
			break;
		case 1:
			prefix = "sub/";
			makeDir(base + "/sub");
			break;
		case 2:
			prefix = "../";
			break;
		case 3:
			prefix = "./";
			name = "base64:" + name;
			break;
		case 4:
			prefix = place.root + "/";
			context.label("absolute data path");
			break;
		default:
			prefix = "sub dir//deeper/../";
			makeDir(base + "/sub dir");
			makeDir(base + "/sub dir/deeper");
			break;
	}
	std::string path = prefix + name;
	writeFile(path[0] == '/' ? path : base + "/" + path, data.data(), data.size());
	context.label("data in a file");
	return path;
}

// Chooses how the configuration and its data are passed.
void passJob(Source& source, const Place& place, Job& job, Launch& launch, Context& context)
{
	bool fromInput = source.flip();
	std::string configDir;
	if (!fromInput)
	{
		std::string dirs[] = {"", "conf", ".", "../conf", place.root + "/conf", "conf/in ner", "conf//",
			"conf/../conf", "./conf/./in ner", "conf/in ner/..", "../work/conf", place.root + "/conf/../work/conf/../conf",
			"conflink", "conflink/..", "./", "conf/in ner/../../../conf"};
		configDir = source.pick(dirs);
		makeDir(place.work + "/conf");
		makeDir(place.work + "/conf/in ner");
		makeDir(place.root + "/conf");
		if (configDir.compare(0, 8, "conflink") == 0 && symlink("../conf/far", (place.work + "/conflink").c_str()) == 0)
			makeDir(place.root + "/conf/far");
	}
	unsigned number = 0;
	std::map<Bytes, std::string> files;
	auto pass = [&](const Bytes& data)
	{
		if (!source.flip())
			return base64Of(data);
		auto found = files.find(data);
		if (found != files.end() && source.flip())
		{
			context.label("data twice in the same file");
			return found->second;
		}
		std::string path = putData(source, place, configDir, data, number++, context);
		files[data] = path;
		return path;
	};
	for (std::size_t i = 0; i < job.config.streams.size(); ++i)
	{
		config::Stream& stream = job.config.streams[i];
		stream.vertexData = pass(job.vertexData[i]);
		if (stream.indexType != IndexType::NoIndices)
			stream.indexData = pass(job.indexData[i]);
	}
	std::string text = json::write(config::tree(job.config, &source), &source);
	if (fromInput)
	{
		launch.input = source.flip() ? Input::Pipe : Input::File;
		launch.inputText = text;
		if (source.chance(1, 8))
		{
			launch.args.push_back("-i");
			launch.args.push_back("");
		}
		context.label(launch.input == Input::Pipe ? "configuration through a pipe" : "configuration on standard input");
	}
	else
	{
		static const char* const names[] = {"config.json", "c", "a b.json", "stdin", "%d", "\xc3\xa9", ".json"};
		std::string path = configDir;
		if (!path.empty() && path.back() != '/')
			path += '/';
		path += source.pick(names);
		writeFile(absoluteOf(place, path), text);
		launch.args.push_back(source.flip() ? "--input" : "-i");
		launch.args.push_back(path);
		context.label("configuration in a file");
	}
}

// -------------------------------------------------------------------------------------- results of the tool

struct Document
{
	mesh::Result result;
	std::vector<std::string> vertexPaths; // When they aren't embedded.
	std::vector<std::string> indexPaths;
	json::Value value; // With the data in place of the strings that name it.
};

std::string stringOf(const json::Value& object, const char* name, Context& context)
{
	const json::Value* value = object.find(name);
	PBT_REQUIRE(context, value && value->isString() && object.count(name) == 1, "the result has no string '%s'", name);
	return value->text;
}

std::int64_t integerOf(const json::Value& object, const char* name, Context& context)
{
	const json::Value* value = object.find(name);
	std::int64_t result = 0;
	PBT_REQUIRE(context, value && object.count(name) == 1 && value->asInteger(result), "the result has no integer '%s'",
		name);
	return result;
}

const json::Value& arrayOf(const json::Value& object, const char* name, Context& context)
{
	const json::Value* value = object.find(name);
	PBT_REQUIRE(context, value && value->kind == json::Kind::Array && object.count(name) == 1,
		"the result has no array '%s'", name);
	return *value;
}

Bytes dataOf(const std::string& text, const std::string& cwd, bool files, std::vector<std::string>& paths, Context& context)
{
	Bytes data;
	if (files)
	{
		std::string path = !text.empty() && text[0] == '/' ? text : cwd + "/" + text;
		PBT_REQUIRE(context, readFile(path, data), "the result names '%s', which isn't there", text.c_str());
		paths.push_back(path);
	}
	else
	{
		PBT_REQUIRE(context, text.compare(0, 7, "base64:") == 0 && json::base64Decode(data, text.substr(7)) == 1,
			"output data isn't embedded as base64: %s", text.substr(0, 100).c_str());
	}
	return data;
}

// Reads a result document; everything in it must fit together and describe the given formats.
Document readDocument(const std::string& text, const Case& testCase, const std::string& cwd, bool files, Context& context)
{
	Document document;
	json::ParseResult parsed = json::parse(text);
	PBT_REQUIRE(context, parsed.valid && !parsed.open && json::validUtf8(text), "the output isn't one JSON document: %s",
		text.substr(0, 2000).c_str());
	const json::Value& root = parsed.value;
	PBT_REQUIRE(context, root.kind == json::Kind::Object, "the result isn't an object");
	mesh::Result& result = document.result;
	result.added = result.converted = true;
	std::int64_t vertexCount = integerOf(root, "vertexCount", context);
	PBT_REQUIRE(context, vertexCount >= 0 && vertexCount <= 0xFFFFFFFFLL, "%lld vertices", static_cast<long long>(vertexCount));
	result.vertexCount = static_cast<std::uint32_t>(vertexCount);
	const json::Value& vertices = arrayOf(root, "vertices", context);
	PBT_REQUIRE(context, vertices.items.size() == testCase.output.size(), "%zu output streams instead of %zu",
		vertices.items.size(), testCase.output.size());
	document.value = root;
	json::Value* newVertices = nullptr;
	json::Value* newBuffers = nullptr;
	for (auto& member : document.value.members)
	{
		if (member.first == "vertices")
			newVertices = &member.second;
		else if (member.first == "indexBuffers")
			newBuffers = &member.second;
	}
	auto replace = [](json::Value& object, const char* name, const Bytes& data)
	{
		for (auto& member : object.members)
		{
			if (member.first == name)
				member.second = json::Value::string(base64Of(data));
		}
	};
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		const json::Value& stream = vertices.items[i];
		const mesh::Format& format = testCase.output[i];
		PBT_REQUIRE(context, integerOf(stream, "vertexStride", context) == format.stride, "stride of output stream %zu", i);
		const json::Value& elements = arrayOf(stream, "vertexFormat", context);
		PBT_REQUIRE(context, elements.items.size() == format.elements.size(), "output stream %zu has %zu elements", i,
			elements.items.size());
		result.bounds.emplace_back();
		for (std::size_t j = 0; j < format.elements.size(); ++j)
		{
			const json::Value& found = elements.items[j];
			const mesh::Element& element = format.elements[j];
			PBT_REQUIRE(context, stringOf(found, "name", context) == element.name &&
				stringOf(found, "layout", context) == ref::layoutInfo(element.layout).name &&
				stringOf(found, "type", context) == ref::typeName(element.type) &&
				integerOf(found, "offset", context) == element.offset,
				"element %zu of output stream %zu isn't described as '%s' %s %s at %u", j, i, element.name.c_str(),
				ref::layoutInfo(element.layout).name, ref::typeName(element.type), element.offset);
			mesh::ElementBounds bounds;
			const json::Value& low = arrayOf(found, "minValue", context);
			const json::Value& high = arrayOf(found, "maxValue", context);
			context.require(low.items.size() == 4 && high.items.size() == 4, "bounds don't have four components");
			for (unsigned k = 0; k < 4; ++k)
			{
				context.require(low.items[k].kind == json::Kind::Number && high.items[k].kind == json::Kind::Number,
					"bounds aren't numbers");
				bounds.min[k] = low.items[k].asDouble();
				bounds.max[k] = high.items[k].asDouble();
			}
			result.bounds.back().push_back(bounds);
		}
		std::string name = stringOf(stream, "vertexData", context);
		result.vertices.push_back(dataOf(name, cwd, files, document.vertexPaths, context));
		replace(newVertices->items[i], "vertexData", result.vertices.back());
	}
	if (testCase.indexType == IndexType::NoIndices)
	{
		PBT_REQUIRE(context, !root.find("indexType") && !root.find("indexBuffers"), "indices in a result without them");
		return document;
	}
	std::string indexType = stringOf(root, "indexType", context);
	PBT_REQUIRE(context, indexType == (testCase.indexType == IndexType::UInt16 ? "UInt16" : "UInt32"), "index type '%s'",
		indexType.c_str());
	const json::Value& buffers = arrayOf(root, "indexBuffers", context);
	for (std::size_t i = 0; i < buffers.items.size(); ++i)
	{
		const json::Value& item = buffers.items[i];
		mesh::Buffer buffer;
		buffer.type = testCase.indexType;
		buffer.baseVertex = integerOf(item, "baseVertex", context);
		Bytes data = dataOf(stringOf(item, "indexData", context), cwd, files, document.indexPaths, context);
		unsigned size = ref::indexBytes(buffer.type);
		std::int64_t count = integerOf(item, "indexCount", context);
		PBT_REQUIRE(context, count >= 0 && static_cast<std::size_t>(count)*size == data.size(),
			"index buffer %zu of %lld indices has %zu bytes", i, static_cast<long long>(count), data.size());
		for (std::size_t j = 0; j < data.size(); j += size)
		{
			std::uint32_t index = 0;
			for (unsigned k = 0; k < size; ++k)
				index |= std::uint32_t(data[j + k]) << 8*k;
			buffer.indices.push_back(index);
		}
		result.buffers.push_back(buffer);
		replace(newBuffers->items[i], "indexData", data);
	}
	return document;
}

bool sameValue(const json::Value& a, const json::Value& b)
{
	if (a.kind != b.kind || a.text != b.text || a.items.size() != b.items.size() || a.members.size() != b.members.size())
		return false;
	for (std::size_t i = 0; i < a.items.size(); ++i)
	{
		if (!sameValue(a.items[i], b.items[i]))
			return false;
	}
	for (const auto& member : a.members)
	{
		const json::Value* other = b.find(member.first.c_str());
		if (!other || !sameValue(member.second, *other))
			return false;
	}
	return true;
}

// A place for the output. Returns what to pass, and creates what should be there before.
std::string outputDirectory(Source& source, const Place& place, Context& context)
{
	switch (source.below(12))
	{
		case 0:
			context.label("new output directory");
			return "out";
		case 1:
			makeDir(place.work + "/out");
			context.label("existing output directory");
			return "out";
		case 2:
			context.label("nested new output directory");
			return "out/a b/c/d";
		case 3:
			makeDir(place.work + "/out");
			context.label("nested new output directory");
			return "out/new/";
		case 4:
			return "./out";
		case 5:
			return "../out";
		case 6:
			context.label("absolute output directory");
			return place.root + "/out/x";
		case 7:
			return place.root + "//out//";
		case 8:
			makeDir(place.work + "/real");
			if (symlink("real", (place.work + "/link").c_str()) != 0)
				context.fail("harness: no symbolic links");
			context.label("output directory is a symbolic link");
			return source.flip() ? "link" : "link/x";
		case 9:
			return "out/../out2";
		case 10:
			context.label("output in the working directory");
			return source.flip() ? "." : "./";
		default:
			return "-o";
	}
}

// ---------------------------------------------------------------------------------------------------- T01

mesh::Gen toolGen()
{
	mesh::Gen gen;
	gen.cli = true;
	gen.splits = false;
	gen.transforms = true;
	gen.nonFinite = false;
	gen.nan = false;
	return gen;
}

void addOutput(Source& source, Launch& launch, const std::string& directory)
{
	std::vector<std::string> args = {source.flip() ? "--output" : "-o", directory};
	launch.args.insert(source.flip() ? launch.args.end() : launch.args.begin(), args.begin(), args.end());
}

void runFaithful(Source& source, Context& context)
{
	mesh::Gen gen = toolGen();
	gen.bigOneIn = 150;
	Case testCase = mesh::generate(source, gen);
	if (source.chance(1, 4))
		renameElements(source, testCase);
	context.digest(testCase.digest());
	Place place(context);
	Launch launch;
	launch.tool = context.options.tool;
	launch.cwd = place.work;
	Job job = jobOf(source, testCase);
	passJob(source, place, job, launch, context);
	bool files = source.chance(1, 3);
	if (files)
		addOutput(source, launch, outputDirectory(source, place, context));
	context.describe(testCase.text() + "\n" + launch.text());

	Run run = process::run(launch);
	PBT_REQUIRE(context, process::orderly(run, context), "a valid configuration is refused: %s", run.text().c_str());
	Document document = readDocument(run.out, testCase, place.work, files, context);
	const mesh::Result& result = document.result;
	mesh::checkConverted(testCase, result, context);
	mesh::checkVertices(testCase, result, context);
	mesh::checkBuffers(testCase, result, context);
	mesh::checkPrimitives(testCase, result, context);
	mesh::checkSharing(testCase, result, context);
	mesh::checkBounds(testCase, result, context);
	mesh::classify(testCase, result, context);
	context.labelIf(!job.config.transforms.empty(), "transforms");
	context.label(files ? "output in files" : "output embedded");
	context.nontrivial();
}

pbt::Property faithfulProperty()
{
	pbt::Property property = {"T01",
		"Random meshes as for the converter properties (1-4 streams, every layout, type, transform, primitive and index "
		"type, restarts; rarely 60000-140000 vertices), written as configurations in random ways, with data embedded or in "
		"files, run through the tool built with AddressSanitizer and UBSan. The result document is read by an independent "
		"JSON reader, its data files or base64 by an independent decoder, and compared with the mesh: primitives in order "
		"with their corner values, sharing, bounds, offsets, strides, counts. Every case is non-trivial: at least one "
		"vertex through the whole tool. Distinct by formats, data and parameters.",
		&runFaithful};
	property.spawns = true;
	property.assumptions = "Values of which every component is finite; meshes with at least one primitive's worth of indices.\n"
		"Little-endian host.";
	return property;
}

pbt::Register t01(faithfulProperty());

// ---------------------------------------------------------------------------------------------------- T02

void runPassing(Source& source, Context& context)
{
	mesh::Gen gen = toolGen();
	gen.maxPrimitives = 12;
	Case testCase = mesh::generate(source, gen);
	context.digest(testCase.digest());
	Place place(context);
	Job job = jobOf(source, testCase);

	// As simply as possible.
	Launch plain;
	plain.tool = context.options.tool;
	plain.cwd = place.work;
	Job embedded = job;
	embedData(embedded);
	plain.input = Input::File;
	plain.inputText = config::text(embedded.config);
	context.describe(testCase.text() + "\n" + plain.text());
	Run first = process::run(plain);
	PBT_REQUIRE(context, process::orderly(first, context), "a valid configuration is refused: %s", first.text().c_str());
	Document expected = readDocument(first.out, testCase, place.work, false, context);

	unsigned ways = 1 + static_cast<unsigned>(source.below(2));
	for (unsigned i = 0; i < ways; ++i)
	{
		Launch launch;
		launch.tool = context.options.tool;
		launch.cwd = place.work;
		Job passed = job;
		passJob(source, place, passed, launch, context);
		bool files = source.chance(4, 5);
		std::string directory, real;
		bool existing = false;
		if (files)
		{
			directory = outputDirectory(source, place, context);
			addOutput(source, launch, directory);
			std::string path = absoluteOf(place, directory);
			struct stat info;
			existing = stat(path.c_str(), &info) == 0 && S_ISDIR(info.st_mode);
			if (existing && directory != "." && directory != "./")
			{
				// Older, longer or shorter files, and files of no concern.
				unsigned older = source.small(4);
				for (unsigned j = 0; j < older; ++j)
				{
					std::string old(source.below(3) == 0 ? 100000 : source.below(50), 'o');
					writeFile(path + "/vertices." + std::to_string(j) + ".dat", old);
					writeFile(path + "/indices." + std::to_string(j) + ".dat", old);
				}
				writeFile(path + "/notes.txt", "keep");
				context.labelIf(older > 0, "older output files");
			}
		}
		context.describe(testCase.text() + "\n" + launch.text());
		context.digest(launch.text());
		std::string realRoot = realPath(place.root);
		unsigned times = 1;
		if (files && source.flip())
			times = 2;
		for (unsigned time = 0; time < times; ++time)
		{
			std::map<std::string, Bytes> before, after;
			snapshot(place.root, "", before);
			Run run = process::run(launch);
			PBT_REQUIRE(context, process::orderly(run, context), "refused when passed in another way: %s", run.text().c_str());
			Document found = readDocument(run.out, testCase, place.work, files, context);
			PBT_REQUIRE(context, sameValue(expected.value, found.value), "another result when passed in another way:\n%s\n%s",
				json::write(expected.value, nullptr).c_str(), json::write(found.value, nullptr).c_str());
			snapshot(place.root, "", after);
			std::set<std::string> written;
			if (files)
			{
				std::string realDirectory = realPath(absoluteOf(place, directory));
				std::vector<std::string> paths = found.vertexPaths;
				paths.insert(paths.end(), found.indexPaths.begin(), found.indexPaths.end());
				for (const std::string& path : paths)
				{
					std::string realFile = realPath(path);
					std::string parent = realFile.substr(0, realFile.find_last_of('/'));
					PBT_REQUIRE(context, parent == realDirectory, "%s isn't in the output directory %s", path.c_str(),
						directory.c_str());
					PBT_REQUIRE(context, written.insert(realFile).second, "%s is named twice", path.c_str());
					context.checked(2);
				}
			}
			// Nothing else is touched.
			for (const auto& file : before)
			{
				if (written.count(realRoot + "/" + file.first))
					continue;
				auto other = after.find(file.first);
				PBT_REQUIRE(context, other != after.end() && other->second == file.second, "%s was changed", file.first.c_str());
				context.checked();
			}
			for (const auto& file : after)
			{
				PBT_REQUIRE(context, before.count(file.first) || written.count(realRoot + "/" + file.first),
					"the tool left a file that the result doesn't name: %s", file.first.c_str());
			}
			if (time + 1 == times)
				break;
			// Once more over its own output, of which something changed.
			for (const std::string& path : written)
			{
				Bytes data;
				if (source.chance(1, 4) || !readFile(path, data))
					continue;
				if (source.chance(1, 4))
					data.resize(source.below(2*data.size() + 2), 0x55);
				for (std::uint8_t& byte : data)
					byte = static_cast<std::uint8_t>(byte ^ 0x2a);
				writeFile(path, data.data(), data.size());
			}
			context.label("over its own output");
		}
		context.label(files ? "output in files" : "output embedded");
		// Start afresh.
		removeTree(place.root);
		makeDir(place.root);
		makeDir(place.work);
	}
	context.labelIf(testCase.indexType != IndexType::NoIndices, "indexed output");
	context.nontrivial();
}

pbt::Property passingProperty()
{
	pbt::Property property = {"T02",
		"Metamorphic: random meshes as for T01, run once with everything embedded and read from standard input, then 1-2 "
		"times in random other ways: the configuration as a file (several directories, relative and absolute) or through "
		"a pipe, each piece of data embedded or in a file (beside the configuration, below it, above it, absolute, odd "
		"names), output embedded or in a directory (new, nested, existing with older longer and shorter files or its own earlier output with other contents, a symbolic "
		"link, several spellings), written as JSON in random ways. All results must be equal once data files are replaced "
		"by their bytes, named files must lie in the directory, and no other file may appear or change. Every case is "
		"non-trivial. Distinct by mesh and command lines.",
		&runPassing};
	property.spawns = true;
	property.assumptions = "Input files aren't in the way of output files.";
	return property;
}

pbt::Register t02(passingProperty());

// ---------------------------------------------------------------------------------------------------- T03

enum class Must {Fail, Succeed, Either};

void judgeRun(const Run& run, Must must, const std::string& what, Context& context)
{
	bool success = process::orderly(run, context);
	PBT_REQUIRE(context, must != Must::Fail || !success, "success in spite of %s: %s", what.c_str(), run.text().c_str());
	PBT_REQUIRE(context, must != Must::Succeed || success, "failure without a mistake: %s", run.text().c_str());
	if (success)
	{
		json::ParseResult parsed = json::parse(run.out);
		PBT_REQUIRE(context, parsed.valid && parsed.value.kind == json::Kind::Object, "success without a result: %s",
			run.text().c_str());
	}
	if (must == Must::Fail)
		context.nontrivial();
}

// Whether an infinite value is within the bounds of an element for certain, or not at all.
Must boundsVerdict(const Case& testCase)
{
	mesh::Expected expected(testCase);
	Must result = Must::Succeed;
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		for (std::size_t j = 0; j < testCase.output[i].elements.size(); ++j)
		{
			mesh::ElementBounds bounds[2];
			bool known[2][4];
			expected.bounds(i, j, false, bounds[0], known[0]);
			expected.bounds(i, j, true, bounds[1], known[1]);
			for (unsigned k = 0; k < 4; ++k)
			{
				bool infinite[2];
				for (unsigned l = 0; l < 2; ++l)
				{
					infinite[l] = !known[l][k] || !std::isfinite(bounds[l].min[k]) || !std::isfinite(bounds[l].max[k]);
				}
				if (infinite[0] && infinite[1] && known[0][k] && known[1][k])
					return Must::Fail;
				if (infinite[0] || infinite[1])
					result = Must::Either;
			}
		}
	}
	return result;
}

bool mistakeInData(Source& source, const Place& place, Case& testCase, Job& job, std::string& what)
{
	std::size_t s = source.below(job.config.streams.size());
	config::Stream& stream = job.config.streams[s];
	bool indexed = stream.indexType != IndexType::NoIndices;
	embedData(job);
	switch (source.below(14))
	{
		case 0:
		{
			std::uint32_t stride = testCase.streams[s].format.stride;
			if (stride == 1)
				return false;
			Bytes data = job.vertexData[s];
			if (source.chance(1, 3))
			{
				// Wide vertices.
				std::uint32_t wide = stride;
				for (unsigned i = 1 + source.small(20); i > 0; --i)
				{
					auto e = source.pick(ref::validElements());
					stream.format.push_back(config::Element{"filler" + std::to_string(i), e.first, e.second});
					wide += ref::layoutInfo(e.first).size;
				}
				Bytes spread(data.size()/stride*wide, 0);
				for (std::size_t v = 0; v < data.size()/stride; ++v)
					std::copy_n(data.data() + v*stride, stride, spread.data() + v*wide);
				data.swap(spread);
				stride = wide;
			}
			if (source.flip())
				data.resize(data.size() + 1 + source.below(stride - 1));
			else
				data.resize(data.size() + 1 + source.below(std::min(stride - 1, 4U)));
			if (source.flip() && data.size() > stride)
				data.resize(data.size() - stride);
			stream.vertexData = base64Of(data);
			what = "a part of a vertex";
			return true;
		}
		case 1:
		{
			if (!indexed)
				return false;
			Bytes data = job.indexData[s];
			data.resize(data.size() + 1 + source.below(ref::indexBytes(stream.indexType) - 1));
			stream.indexData = base64Of(data);
			what = "a part of an index";
			return true;
		}
		case 2:
		{
			std::string& text = indexed && source.flip() ? stream.indexData : stream.vertexData;
			std::string changed = text.substr(7);
			unsigned changes = 1 + source.small(2);
			for (unsigned i = 0; i < changes; ++i)
			{
				auto pos = source.below(changed.size() + 1);
				static const char characters[] = "=-_ \nA\x7f!";
				char c = characters[source.below(sizeof(characters) - 1)];
				if (source.flip() || pos == changed.size())
					changed.insert(pos, 1, c);
				else if (source.flip())
					changed[pos] = c;
				else
					changed.erase(pos, 1);
			}
			Bytes decoded;
			if (json::base64Decode(decoded, changed) != 0)
				return false;
			text = "base64:" + changed;
			what = "text that isn't base64";
			return true;
		}
		case 3:
		{
			std::string& text = indexed && source.flip() ? stream.indexData : stream.vertexData;
			makeDir(place.work + "/dir");
			std::string paths[] = {"missing", "dir", "dir/missing", "missing/file", ".", "/", "", place.root + "/missing",
				std::string(300, 'x'), std::string(5000, 'y'), "base65:AAAA", "dir/", "/dev/null/x"};
			text = source.pick(paths);
			what = "data that can't be read";
			return true;
		}
		case 4:
		{
			// The restart value isn't out of range where restarts are recognized, and maybe not elsewhere.
			if (!indexed || !testCase.streamUsed(s))
				return false;
			mesh::Stream& input = testCase.streams[s];
			std::uint32_t most = ref::restartValue(input.indexType);
			if (input.vertexCount >= most)
				return false;
			std::uint32_t index = input.vertexCount;
			if (source.flip())
				index = static_cast<std::uint32_t>(source.range(index, most - 1));
			input.indices[source.below(input.indices.size())] = index;
			stream.indexData = base64Of(input.indexBytes());
			what = "an index out of range";
			return true;
		}
		case 5:
		{
			if (testCase.streams.size() < 2)
				return false;
			std::uint32_t size = indexed ? ref::indexBytes(stream.indexType) : testCase.streams[s].format.stride;
			Bytes data = indexed ? job.indexData[s] : job.vertexData[s];
			if (source.flip() && testCase.count > 1)
				data.resize(data.size() - size);
			else
				data.resize(data.size() + size);
			(indexed ? stream.indexData : stream.vertexData) = base64Of(data);
			what = "streams of different lengths";
			return true;
		}
		case 6:
		{
			// Each stream shorter by the same number.
			std::uint32_t cut = 1 + static_cast<std::uint32_t>(source.small(5));
			if (cut >= testCase.count || ref::countValid(testCase.primitive, testCase.count - cut, testCase.patchPoints))
				return false;
			for (std::size_t i = 0; i < testCase.streams.size(); ++i)
			{
				config::Stream& cur = job.config.streams[i];
				bool curIndexed = cur.indexType != IndexType::NoIndices;
				Bytes data = curIndexed ? job.indexData[i] : job.vertexData[i];
				data.resize(data.size() - cut*(curIndexed ? ref::indexBytes(cur.indexType) :
					testCase.streams[i].format.stride));
				(curIndexed ? cur.indexData : cur.vertexData) = base64Of(data);
			}
			what = "an incomplete primitive";
			return true;
		}
		case 7:
		{
			std::string name = mutate::randomText(source, 8) + "?";
			job.config.transforms.insert(job.config.transforms.begin() +
				static_cast<std::ptrdiff_t>(source.below(job.config.transforms.size() + 1)),
				{name, static_cast<int>(source.below(4))});
			for (const mesh::Format& format : testCase.output)
			{
				if (format.find(name) >= 0)
					return false;
			}
			what = "a transform for an unknown element";
			return true;
		}
		case 8:
		{
			// An output element that no stream has, or many.
			unsigned count = 1;
			if (source.flip())
				count = source.chance(1, 4) ? 1 + source.small(40) : 256U << source.below(2);
			for (unsigned i = 0; i < count; ++i)
			{
				auto element = source.pick(ref::validElements());
				config::Format& format = job.config.output[source.below(job.config.output.size())];
				format.insert(format.begin() + static_cast<std::ptrdiff_t>(source.below(format.size() + 1)),
					config::Element{"no stream has it" + std::string(i > 0 ? std::to_string(i) : ""), element.first,
						element.second});
			}
			what = "an element without input";
			return true;
		}
		case 9:
		{
			// An element that two streams have.
			std::size_t from = source.below(testCase.streams.size());
			if (from == s)
				return false;
			const mesh::Format& other = testCase.streams[from].format;
			const mesh::Element& element = other.elements[source.below(other.elements.size())];
			bool used = false;
			for (const mesh::Format& format : testCase.output)
				used = used || format.find(element.name) >= 0;
			if (!used)
				return false;
			stream.format.push_back(config::Element{element.name, element.layout, element.type});
			Bytes data;
			std::uint32_t stride = testCase.streams[s].format.stride;
			std::uint32_t size = ref::layoutInfo(element.layout).size;
			for (std::uint32_t v = 0; v < testCase.streams[s].vertexCount; ++v)
			{
				data.insert(data.end(), job.vertexData[s].begin() + v*stride, job.vertexData[s].begin() + (v + 1)*stride);
				data.resize(data.size() + size);
			}
			stream.vertexData = base64Of(data);
			what = "an element in two streams";
			return true;
		}
		case 10:
			job.config.streams.erase(job.config.streams.begin() + static_cast<std::ptrdiff_t>(s));
			if (job.config.streams.empty() || !testCase.streamUsed(s))
				return false;
			what = "a missing stream";
			return true;
		case 11:
		{
			// No data at all where there should be some.
			(indexed ? stream.indexData : stream.vertexData) = "base64:";
			if (testCase.streams.size() < 2)
				return false;
			what = "a stream without data";
			return true;
		}
		case 12:
			// Indices without any vertices.
			if (!indexed || !testCase.streamUsed(s))
				return false;
			for (std::uint32_t i = 0; i < testCase.streams[s].indices.size(); ++i)
			{
				if (!testCase.streams[s].restartAt(i))
				{
					stream.vertexData = "base64:";
					what = "indices without vertices";
					return true;
				}
			}
			return false;
		default:
			// The prefix alone isn't data, nor is data without the prefix.
			stream.vertexData = stream.vertexData.substr(7);
			if (stream.vertexData.find('/') != std::string::npos)
				return false;
			what = "base64 without a prefix";
			return true;
	}
}

void runBad(Source& source, Context& context)
{
	Place place(context);
	Launch launch;
	launch.tool = context.options.tool;
	launch.cwd = place.work;
	mesh::Gen gen = toolGen();
	gen.maxPrimitives = 6;
	unsigned kind = source.weighted({10, 4, 2, 12, 4, 6, 2, 1});
	if (kind == 4)
		gen.nonFinite = gen.nan = true;
	Case testCase = mesh::generate(source, gen);
	Job job = jobOf(source, testCase);
	std::string text, what;
	auto must = Must::Fail;
	switch (kind)
	{
		case 0:
		case 1:
		{
			embedData(job);
			json::Value tree = config::tree(job.config, source.flip() ? &source : nullptr);
			if (kind == 0)
			{
				unsigned changes = 1 + source.small(2);
				for (unsigned i = 0; i < changes; ++i)
					mutate::mutateTree(source, tree);
			}
			text = json::write(tree, &source);
			if (kind == 1)
				mutate::mutateText(source, text);
			break;
		}
		case 2:
			if (source.flip())
				text = mutate::randomJson(source);
			else
			{
				unsigned length = source.small(100);
				for (unsigned i = 0; i < length; ++i)
					text += static_cast<char>(source.below(256));
			}
			break;
		case 3:
			for (unsigned i = 0; ; ++i)
			{
				if (i == 20)
				{
					context.label("no mistake found");
					return;
				}
				Case changed = testCase;
				Job changedJob = job;
				if (mistakeInData(source, place, changed, changedJob, what))
				{
					text = config::text(changedJob.config);
					break;
				}
			}
			context.label("mistake in the data");
			break;
		case 4:
			embedData(job);
			text = config::text(job.config);
			must = boundsVerdict(testCase);
			what = "infinite bounds";
			context.label("special values");
			break;
		default:
			embedData(job);
			text = config::text(job.config);
			break;
	}
	if (kind <= 2)
	{
		std::size_t nul = text.find('\0');
		json::ParseResult parsed = json::parse(text);
		Config judged;
		must = Must::Either;
		if (nul == std::string::npos && !parsed.open)
		{
			auto verdict = parsed.valid ? config::judge(parsed.value, judged) : config::Verdict::Invalid;
			if (verdict == config::Verdict::Invalid)
				must = Must::Fail;
		}
		else if (nul != std::string::npos)
			must = Must::Fail;
		what = parsed.valid ? "a wrong configuration" : "text that isn't JSON";
		context.label(must == Must::Fail ? parsed.valid ? "wrong configuration" : "not JSON" : "changed configuration");
	}

	if (kind <= 4)
	{
		if (source.flip())
		{
			launch.input = source.flip() ? Input::Pipe : Input::File;
			launch.inputText = text;
		}
		else
		{
			writeFile(place.work + "/config.json", text);
			launch.args = {"-i", "config.json"};
		}
		if (source.chance(1, 4))
			addOutput(source, launch, "out");
	}
	else if (kind == 5)
	{
		// Something is wrong with the command line; the configuration is valid.
		std::vector<std::string> bad;
		what = "a wrong command line";
		writeFile(place.work + "/config.json", text);
		makeDir(place.work + "/dir");
		launch.input = Input::File;
		launch.inputText = text;
		std::vector<std::string> good;
		if (source.flip())
			good = {source.flip() ? "-i" : "--input", "config.json"};
		if (source.chance(1, 3))
		{
			good.push_back(source.flip() ? "-o" : "--output");
			good.push_back("out");
		}
		switch (source.below(3))
		{
			case 0:
			{
				static const char* const unknown[] = {"x", "--inpu", "-I", "-io", "--input=config.json", "config.json", "-",
					"--", "", "-H", "--Help", "--outputs", "-version", "-iconfig.json", "%n%s", "\xff"};
				std::string option = source.pick(unknown);
				if (source.chance(1, 3))
				{
					// Something else that begins like an option, or not.
					static const char* const begins[] = {"", "-", "--", "--input", "--output", "--help", "-h", "-i", "-o"};
					option = source.pick(begins);
					unsigned length = 1 + (source.flip() ? source.small(8) : static_cast<unsigned>(source.below(3000)));
					char c = static_cast<char>(1 + source.below(255));
					bool same = source.flip();
					for (unsigned i = 0; i < length; ++i)
						option += same ? c : static_cast<char>(1 + source.below(255));
					static const char* const known[] = {"-h", "--help", "-i", "--input", "-o", "--output"};
					for (const char* k : known)
					{
						if (option == k)
							option += 'x';
					}
				}
				bad = {option};
				// Before or after the rest, never as an argument of an option.
				std::size_t at = 2*source.below(good.size()/2 + 1);
				good.insert(good.begin() + static_cast<std::ptrdiff_t>(at), bad.begin(), bad.end());
				break;
			}
			case 1:
				good.push_back(source.pick({std::string("-i"), std::string("--input"), std::string("-o"),
					std::string("--output")}));
				break;
			default:
			{
				std::string unreadable[] = {"missing.json", "dir", "dir/", "dir/x/y", ".", "/", "config.json/x",
					std::string(5000, 'z')};
				good.push_back("-i");
				good.push_back(source.pick(unreadable));
				break;
			}
		}
		launch.args = good;
		context.label("wrong command line");
	}
	else if (kind == 6)
	{
		// Help, whatever follows.
		launch.args = {source.flip() ? "-h" : "--help"};
		if (source.flip())
			launch.args.insert(launch.args.begin(), {"-i", "missing"});
		if (source.flip())
			launch.args.push_back("--unknown");
		static const char* const names[] = {"vfc", "/usr/bin/vfc", "./a b/vfc", "vfc/", ""};
		launch.argv0 = source.pick(names);
		context.describe(launch.text());
		Run run = process::run(launch);
		context.require(process::orderly(run, context), "asking for help fails");
		PBT_REQUIRE(context, run.out.find("--input") != std::string::npos && run.out.find("--output") != std::string::npos,
			"the help doesn't name the options: %s", run.text().c_str());
		for (const ref::LayoutInfo& info : ref::layouts())
			PBT_REQUIRE(context, run.out.find(info.name) != std::string::npos, "the help doesn't name %s", info.name);
		for (const ref::TypeInfo& info : ref::types())
			PBT_REQUIRE(context, run.out.find(info.name) != std::string::npos, "the help doesn't name %s", info.name);
		for (const ref::PrimitiveInfo& info : ref::primitives())
			PBT_REQUIRE(context, run.out.find(info.name) != std::string::npos, "the help doesn't name %s", info.name);
		context.label("help");
		return;
	}
	else
	{
		launch.input = source.pick({Input::Closed, Input::Directory, Input::WriteOnly});
		what = "unreadable standard input";
		context.label("unreadable standard input");
	}
	context.digest(launch.text());
	context.digest(text);
	context.describe(what + "\n" + launch.text() + (launch.input == Input::Empty ? "\n" + text : std::string()));
	judgeRun(process::run(launch), must, what, context);
	context.label(must == Must::Fail ? "must fail" : must == Must::Succeed ? "must succeed" : "may fail");
}

pbt::Property badProperty()
{
	pbt::Property property = {"T03",
		"Valid configurations of random meshes with something wrong: changes anywhere in the tree or the text, token and "
		"byte soup, partial vertices and indices, damaged base64, missing files and directories as data, indices out of "
		"range, streams of different lengths, incomplete primitives, unknown transforms, elements without or with two "
		"sources, infinite values, wrong command lines, unreadable standard input. Run through the tool built with "
		"AddressSanitizer and UBSan: it must end with a failure code, a message and no output where the mistake is certain "
		"(decided by an independent reader and validator), and with either that or a result and no message elsewhere. "
		"Non-trivial: it must fail. Distinct by command line and configuration.",
		&runBad};
	property.spawns = true;
	property.assumptions = "A configuration that is wrong only in ways left open by the documentation may be accepted.";
	return property;
}

pbt::Register t03(badProperty());

// ---------------------------------------------------------------------------------------------------- T04

void requireFailure(const Run& run, const std::string& what, Context& context)
{
	context.checked();
	PBT_REQUIRE(context, !process::orderly(run, context), "success in spite of %s: %s", what.c_str(), run.text().c_str());
}

void runFault(Source& source, Context& context)
{
	Place place(context);
	mesh::Gen gen = toolGen();
	gen.maxPrimitives = source.flip() ? 10 : 60;
	gen.bigOneIn = 150;
	Case testCase = mesh::generate(source, gen);
	Job job = jobOf(source, testCase);
	embedData(job);
	Launch launch;
	launch.tool = context.options.tool;
	launch.cwd = place.work;
	launch.input = Input::File;
	launch.inputText = config::text(job.config);
	context.digest(testCase.digest());
	context.describe(testCase.text() + "\n" + launch.text());

	// Without faults, to learn the files and their sizes.
	bool embedded = source.chance(1, 4);
	makeDir(place.root + "/first");
	Launch first = launch;
	if (!embedded)
		first.args = {"-o", "../first"};
	Run plain = process::run(first);
	PBT_REQUIRE(context, process::orderly(plain, context), "a valid configuration is refused: %s", plain.text().c_str());
	Document document = readDocument(plain.out, testCase, place.work, !embedded, context);
	std::vector<std::string> names;
	std::vector<std::size_t> sizes;
	auto note = [&](const std::string& path, std::size_t size)
	{
		names.push_back(path.substr(path.find_last_of('/') + 1));
		sizes.push_back(size);
	};
	if (!embedded)
	{
		for (std::size_t i = 0; i < document.vertexPaths.size(); ++i)
			note(document.vertexPaths[i], document.result.vertices[i].size());
		for (std::size_t i = 0; i < document.indexPaths.size(); ++i)
			note(document.indexPaths[i], document.result.buffers[i].indices.size()*ref::indexBytes(testCase.indexType));
	}

	std::string out = place.work + "/out";
	std::string what;
	unsigned kind = embedded ? 5 : source.weighted({3, 4, 4, 3, 3, 3});
	switch (kind)
	{
		case 0:
		{
			// Something that isn't a directory in the way.
			writeFile(place.work + "/file", "x");
			if (symlink("nowhere", (place.work + "/dangling").c_str()) != 0 ||
				symlink("loop", (place.work + "/loop").c_str()) != 0)
			{
				context.fail("harness: no symbolic links");
			}
			static const char* const directories[] = {"file", "file/out", "file/a/b", "./file/", "dangling", "dangling/x",
				"loop", "loop/x", "/dev/null", "/dev/null/x", "/proc/nothing/x"};
			std::string directory = source.pick(directories);
			if (source.chance(1, 8))
				directory = std::string(300, 'd');
			else if (source.chance(1, 16))
				directory = std::string(4200, 'd');
			launch.args = {"-o", directory};
			what = "the output directory " + directory.substr(0, 20);
			context.label("output directory can't exist");
			break;
		}
		case 1:
		{
			// A file that can't be opened.
			makeDir(out);
			std::size_t which = source.below(names.size());
			std::string path = out + "/" + names[which];
			switch (source.below(3))
			{
				case 0:
					makeDir(path);
					break;
				case 1:
					if (symlink("missing/x", path.c_str()) != 0)
						context.fail("harness: no symbolic links");
					break;
				default:
					if (symlink(names[which].c_str(), path.c_str()) != 0)
						context.fail("harness: no symbolic links");
					break;
			}
			launch.args = {"-o", "out"};
			what = names[which] + " that can't be opened";
			context.label(names[which][0] == 'v' ? "vertex file can't be opened" : "index file can't be opened");
			break;
		}
		case 2:
		{
			// A file on a full device, or several.
			makeDir(out);
			bool any = false;
			for (std::size_t i = 0; i < names.size(); ++i)
			{
				if (sizes[i] == 0 || source.chance(1, 2))
					continue;
				if (symlink("/dev/full", (out + "/" + names[i]).c_str()) != 0)
					context.fail("harness: no symbolic links");
				any = true;
				what += names[i] + " ";
			}
			if (!any)
			{
				std::size_t which = source.below(names.size());
				if (symlink("/dev/full", (out + "/" + names[which]).c_str()) != 0)
					context.fail("harness: no symbolic links");
				what = names[which] + " ";
				if (sizes[which] == 0)
					return;
			}
			launch.args = {"-o", "out"};
			what += "on a full device";
			context.label("file on a full device");
			break;
		}
		case 3:
		{
			// Files can only be written in part.
			std::size_t largest = *std::max_element(sizes.begin(), sizes.end());
			launch.fileLimit = static_cast<std::int64_t>(source.below(largest));
			if (source.chance(1, 3))
				launch.fileLimit = static_cast<std::int64_t>(largest) - 1;
			launch.args = {"-o", "out"};
			what = pbt::format("files of at most %lld bytes where %zu are needed", static_cast<long long>(launch.fileLimit),
				largest);
			context.label("file written in part");
			break;
		}
		case 4:
		{
			// Without permission.
			launch.unprivileged = true;
			launch.args = {"-o", "out"};
			chmod(place.root.c_str(), 0755);
			switch (source.below(4))
			{
				case 0:
					what = "no permission to create the directory";
					break;
				case 1:
					makeDir(out);
					what = "no permission to write in the directory";
					break;
				case 2:
					makeDir(out);
					launch.args[1] = "out/deeper/x";
					what = "no permission to create the directory";
					break;
				default:
				{
					makeDir(out);
					chmod(out.c_str(), 0777);
					std::size_t which = source.below(names.size());
					writeFile(out + "/" + names[which], "mine");
					chmod((out + "/" + names[which]).c_str(), 0444);
					what = "no permission to write " + names[which];
					break;
				}
			}
			context.label("no permission");
			break;
		}
		default:
		{
			// The result can't be printed.
			if (!embedded)
				launch.args = {"-o", "out"};
			switch (source.below(5))
			{
				case 0:
					launch.output = Output::FullDevice;
					what = "standard output on a full device";
					break;
				case 1:
					launch.output = Output::Closed;
					what = "closed standard output";
					break;
				case 2:
					launch.output = Output::ReadOnly;
					what = "standard output that can't be written";
					break;
				case 3:
					launch.output = Output::BrokenPipe;
					what = "a broken pipe as standard output";
					break;
				default:
				{
					launch.output = Output::File;
					launch.outputFile = place.root + "/stdout.json";
					auto limit = std::max<std::size_t>(1, plain.out.size());
					// Data files must fit.
					std::size_t largest = sizes.empty() ? 0 : *std::max_element(sizes.begin(), sizes.end());
					if (largest + 1 >= limit)
						return;
					launch.fileLimit = static_cast<std::int64_t>(source.range(largest, limit - 2));
					// The paths in the result have different lengths; stay well below.
					launch.fileLimit = std::max<std::int64_t>(static_cast<std::int64_t>(largest),
						launch.fileLimit - 8*static_cast<std::int64_t>(names.size()));
					if (launch.fileLimit + static_cast<std::int64_t>(8*names.size()) >= static_cast<std::int64_t>(limit))
						return;
					what = pbt::format("standard output of at most %lld bytes", static_cast<long long>(launch.fileLimit));
					context.label("result printed in part");
					break;
				}
			}
			context.label("result can't be printed");
			break;
		}
	}
	context.digest(what);
	context.describe(what + "\n" + launch.text() + "\n" + testCase.text());
	Run run = process::run(launch);
	if (run.skipped)
	{
		context.label("skipped: the fault can't be arranged here");
		return;
	}
	requireFailure(run, what, context);
	context.nontrivial();

	// Once the obstacle is gone, the same works.
	if (source.chance(1, 4) && kind >= 1 && kind <= 3)
	{
		removeTree(out);
		launch.fileLimit = -1;
		Run again = process::run(launch);
		PBT_REQUIRE(context, process::orderly(again, context), "fails without the fault: %s", again.text().c_str());
		Document other = readDocument(again.out, testCase, place.work, true, context);
		context.require(sameValue(document.value, other.value), "another result");
		context.label("and again without the fault");
	}
}

pbt::Property faultProperty()
{
	pbt::Property property = {"T04",
		"Fault injection: random meshes as for T01 are converted once without faults, then with one: output directories "
		"that can't exist or be created (files, dangling and circular links, devices, names too long), each output file in "
		"turn a directory, a dead link, on a full device (/dev/full), limited to fewer bytes than it needs "
		"(RLIMIT_FSIZE), or not permitted (as an unprivileged user), and standard output full, closed, not writable, a "
		"broken pipe, or limited to a part of the result. Each must give a failure code, a message, and no result on "
		"standard output; control runs without the fault must succeed. Non-trivial: a fault was injected. Distinct by mesh "
		"and fault.",
		&runFault};
	property.spawns = true;
	property.assumptions = "With standard output limited in length the part that fits may have been printed.\n"
		"A closed pipe is only tried with SIGPIPE ignored: by default the signal ends the tool.";
	return property;
}

pbt::Register t04(faultProperty());

// ---------------------------------------------------------------------------------------------------- T10

void runReuse(Source& source, Context& context)
{
	mesh::Gen gen = toolGen();
	gen.bigOneIn = 1500;
	Case testCase = mesh::generate(source, gen);
	if (source.chance(1, 4))
		renameElements(source, testCase);
	context.digest(testCase.digest());
	Place place(context);
	Launch launch;
	launch.tool = context.options.tool;
	launch.cwd = place.work;
	Job job = jobOf(source, testCase);
	passJob(source, place, job, launch, context);
	bool files = source.flip();
	std::string directory;
	if (files)
	{
		directory = outputDirectory(source, place, context);
		addOutput(source, launch, directory);
	}
	context.describe(testCase.text() + "\n" + launch.text());
	Run run = process::run(launch);
	PBT_REQUIRE(context, process::orderly(run, context), "a valid configuration is refused: %s", run.text().c_str());
	Document document = readDocument(run.out, testCase, place.work, files, context);
	if (document.result.buffers.size() > 1)
	{
		context.label("split, not used again");
		return;
	}
	for (const Bytes& data : document.result.vertices)
	{
		// Strips of nothing but restarts.
		if (data.empty())
		{
			context.label("no vertices, not used again");
			return;
		}
	}
	for (std::size_t i = 0; i < testCase.output.size(); ++i)
	{
		const Bytes& data = document.result.vertices[i];
		const mesh::Format& format = testCase.output[i];
		for (std::size_t offset = 0; offset + format.stride <= data.size(); offset += format.stride)
		{
			for (const mesh::Element& element : format.elements)
			{
				double value[4];
				ref::decode(element.layout, element.type, data.data() + offset + element.offset, value);
				for (double component : value)
				{
					if (!std::isfinite(component))
					{
						// Too large for the requested format.
						context.label("infinite result, not used again");
						return;
					}
				}
			}
		}
	}

	// The parts of the result, as they are, as parts of another configuration.
	json::Value root = json::parse(run.out).value;
	const json::Value& vertices = arrayOf(root, "vertices", context);
	json::Value formats = json::Value::array(), streams = json::Value::array();
	const json::Value* indexType = root.find("indexType");
	for (const json::Value& stream : vertices.items)
	{
		json::Value next = json::Value::object();
		next.add("vertexFormat", arrayOf(stream, "vertexFormat", context));
		next.add("vertexData", json::Value::string(stringOf(stream, "vertexData", context)));
		if (indexType)
		{
			next.add("indexType", *indexType);
			next.add("indexData", json::Value::string(stringOf(arrayOf(root, "indexBuffers", context).items[0], "indexData",
				context)));
		}
		formats.items.push_back(arrayOf(stream, "vertexFormat", context));
		streams.items.push_back(next);
	}
	for (std::size_t i = streams.items.size(); i > 1; --i)
		std::swap(streams.items[i - 1], streams.items[i - 1 - source.below(i)]);
	json::Value config = json::Value::object();
	config.add("vertexFormat", formats);
	if (indexType)
		config.add("indexType", *indexType);
	config.add("primitiveType", json::Value::string(ref::primitiveName(testCase.primitive)));
	if (testCase.primitive == PrimitiveType::PatchList)
		config.add("patchPoints", json::Value::number(std::to_string(testCase.patchPoints)));
	config.add("vertexStreams", streams);
	std::string text = json::write(config, &source);
	Launch again;
	again.tool = context.options.tool;
	again.cwd = place.work;
	if (source.flip())
	{
		again.input = source.flip() ? Input::Pipe : Input::File;
		again.inputText = text;
	}
	else
	{
		// Output paths are relative to the working directory.
		writeFile(place.work + "/again.json", text);
		again.args = {"-i", source.flip() ? "again.json" : "./again.json"};
	}
	bool againFiles = source.flip();
	if (againFiles)
	{
		// The result may take the place of the files that are read.
		bool inPlace = files && source.flip();
		addOutput(source, again, inPlace ? directory : "next");
		context.labelIf(inPlace, "in place");
	}
	context.describe(testCase.text() + "\n" + launch.text() + "\nthen\n" + again.text() + "\n" + text);
	Run second = process::run(again);
	PBT_REQUIRE(context, process::orderly(second, context), "the parts of a result are refused as input: %s",
		second.text().c_str());
	Document found = readDocument(second.out, testCase, place.work, againFiles, context);
	const mesh::Result& a = document.result;
	const mesh::Result& b = found.result;
	PBT_REQUIRE(context, a.vertexCount == b.vertexCount, "%u vertices, and %u when the result is converted again",
		a.vertexCount, b.vertexCount);
	for (std::size_t i = 0; i < a.vertices.size(); ++i)
		PBT_REQUIRE(context, a.vertices[i] == b.vertices[i], "converting the result again changes output stream %zu", i);
	PBT_REQUIRE(context, a.buffers.size() == b.buffers.size(), "converting the result again splits it");
	for (std::size_t i = 0; i < a.buffers.size(); ++i)
	{
		PBT_REQUIRE(context, a.buffers[i].baseVertex == b.buffers[i].baseVertex && a.buffers[i].indices == b.buffers[i].indices,
			"converting the result again changes the indices");
	}
	context.checked(a.vertices.size() + 2);
	context.label(files ? "result in files" : "result embedded");
	context.labelIf(indexType != nullptr, "indexed result");
	context.nontrivial();
}

pbt::Property reuseProperty()
{
	pbt::Property property = {"T10",
		"Random meshes as for T01 run through the tool; then vertexFormat, vertexData, indexType and indexData of the result "
		"are put as they are into a configuration (streams in any order, from standard input or a file in the working "
		"directory, written to other files, to the same files, or embedded) that asks for the same formats without transforms, which is run too: it must give the same vertices and "
		"indices byte for byte. Every case with one index buffer or none is non-trivial. Distinct by the mesh.",
		&runReuse};
	property.spawns = true;
	property.assumptions = "Output directories whose name begins with base64: are not used.\n"
		"Results in several index buffers, without vertices, or with values too large for their format are not used again.";
	return property;
}

pbt::Register t10(reuseProperty());

// ---------------------------------------------------------------------------------------------------- T11

void requireHelp(const Run& run, Context& context)
{
	context.require(process::orderly(run, context), "asking for help fails");
	static const char* const words[] = {"--help", "-h", "--input", "-i", "--output", "-o", "vertexFormat", "name", "layout",
		"type", "indexType", "primitiveType", "patchPoints", "vertexStreams", "vertexData", "indexData", "vertexTransforms",
		"transform", "base64", "UInt16", "UInt32", "Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};
	std::set<std::string> found;
	std::string word;
	for (char c : run.out + "\n")
	{
		if (std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-')
			word += c;
		else
		{
			found.insert(word);
			word.clear();
		}
	}
	auto require = [&](const char* text)
	{
		PBT_REQUIRE(context, found.count(text), "the help doesn't name %s:\n%s", text, run.text().c_str());
		context.checked();
	};
	for (const char* text : words)
		require(text);
	for (const ref::LayoutInfo& info : ref::layouts())
		require(info.name);
	for (const ref::TypeInfo& info : ref::types())
		require(info.name);
	for (const ref::PrimitiveInfo& info : ref::primitives())
		require(info.name);
}

void runOptions(Source& source, Context& context)
{
	mesh::Gen gen = toolGen();
	gen.maxPrimitives = 4;
	Case testCase = mesh::generate(source, gen);
	Place place(context);
	Job job = jobOf(source, testCase);
	embedData(job);
	std::string text = config::text(job.config);
	bool file = source.flip();
	static const char* const names[] = {"config.json", "-h", "--help", "-o", "--output", "-i", "-", "--", "a b", "x=y"};
	std::string name = source.pick(names);
	if (file && source.chance(1, 3))
	{
		// What is output isn't beside the input.
		std::string in = source.pick({"in", "-i", "--", "a b"});
		mkdir((place.work + "/" + in).c_str(), 0755);
		name = in + "/" + name;
	}
	std::string directory = source.pick(names) + std::string("-out");
	if (source.chance(1, 3))
		directory = source.pick({std::string("-h"), std::string("--help"), std::string("-i"), std::string("--input"),
			std::string("-x"), std::string("o")});
	bool output = source.flip() && directory != name.substr(0, name.find('/'));
	auto launchOf = [&](bool longInput, bool longOutput, bool outputFirst)
	{
		Launch launch;
		launch.tool = context.options.tool;
		launch.cwd = place.work;
		std::vector<std::string> in, out;
		if (file)
			in = {longInput ? "--input" : "-i", name};
		else
		{
			launch.input = Input::File;
			launch.inputText = text;
		}
		if (output)
			out = {longOutput ? "--output" : "-o", directory};
		launch.args = outputFirst ? out : in;
		const std::vector<std::string>& last = outputFirst ? in : out;
		launch.args.insert(launch.args.end(), last.begin(), last.end());
		return launch;
	};
	if (file)
		writeFile(place.work + "/" + name, text);
	context.digest(testCase.digest());
	context.digest(name + "\n" + directory);
	if (source.chance(1, 3))
	{
		// Help after whatever options.
		Launch launch = launchOf(source.flip(), source.flip(), source.flip());
		launch.args.push_back(source.flip() ? "-h" : "--help");
		unsigned more = source.small(3);
		static const char* const rest[] = {"-h", "--help", "--unknown", "-i", "-o", "", "x"};
		for (unsigned i = 0; i < more; ++i)
			launch.args.push_back(source.pick(rest));
		static const char* const programs[] = {"vfc", "/usr/bin/vfc", "./a b/vfc", "vfc/", "", "%s%n"};
		launch.argv0 = source.pick(programs);
		if (source.flip())
			launch.input = source.pick({Input::Empty, Input::Closed, Input::Directory});
		if (file && source.flip())
		{
			// The input isn't looked at.
			if (source.flip())
				writeFile(place.work + "/" + name, source.flip() ? "" : "{");
			else
				unlink((place.work + "/" + name).c_str());
		}
		std::map<std::string, Bytes> before, after;
		snapshot(place.root, "", before);
		context.describe(launch.text());
		context.digest(launch.text());
		Run run = process::run(launch);
		requireHelp(run, context);
		snapshot(place.root, "", after);
		context.require(before == after, "asking for help changes files");
		struct stat info;
		PBT_REQUIRE(context, !output || stat((place.work + "/" + directory).c_str(), &info) != 0,
			"asking for help creates the output directory");
		context.label("help");
		context.labelIf(!launch.args.empty() && launch.args.size() > 1, "help beside other options");
		context.nontrivial();
		return;
	}

	Launch plain = launchOf(false, false, false);
	context.describe(testCase.text() + "\n" + plain.text());
	Run first = process::run(plain);
	PBT_REQUIRE(context, process::orderly(first, context), "a valid configuration is refused: %s", first.text().c_str());
	Document expected = readDocument(first.out, testCase, place.work, output, context);
	Launch other = launchOf(source.flip(), source.flip(), source.flip());
	context.describe(testCase.text() + "\n" + plain.text() + "\n" + other.text());
	context.digest(other.text());
	Run second = process::run(other);
	PBT_REQUIRE(context, process::orderly(second, context), "refused with other spellings of the options: %s",
		second.text().c_str());
	Document found = readDocument(second.out, testCase, place.work, output, context);
	PBT_REQUIRE(context, sameValue(expected.value, found.value) && expected.vertexPaths == found.vertexPaths &&
		expected.indexPaths == found.indexPaths, "another result with other spellings of the options:\n%s\n%s",
		first.out.c_str(), second.out.c_str());
	context.checked();
	context.labelIf(file, "input option");
	context.labelIf(output, "output option");
	if (file || output)
		context.nontrivial();
}

pbt::Property optionsProperty()
{
	pbt::Property property = {"T11",
		"Metamorphic: small random meshes run with short options, then with random short or long ones in random order, with "
		"file and directory names that look like options: the result must be the same. In a third of the cases help is asked "
		"for after other options and before anything at all, with standard input usable or not: it must succeed, print help "
		"that has every option, configuration member, layout, type, index type, primitive type and transform as a word, and "
		"neither create nor change a file. Non-trivial: an option was given. Distinct by mesh and command lines.",
		&runOptions};
	property.spawns = true;
	property.assumptions = "No option is given twice, and options before help are complete.";
	return property;
}

pbt::Register t11(optionsProperty());

} // namespace
