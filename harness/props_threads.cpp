// Conversions in several threads, built with ThreadSanitizer.
#include "core.h"
#include "mesh.h"
#include "ref.h"

#include <VFC/Converter.h>
#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>

#include <atomic>
#include <cerrno>
#include <string>
#include <thread>
#include <vector>

#include <csignal>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace mesh;
using pbt::Context;
using pbt::Source;

namespace
{

// One value through several formats, and names.
struct Value
{
	double components[4];
	ElementLayout layout;
	ElementType type;
	bool bounds;
	std::string name;
};

struct ValueResult
{
	std::uint8_t bytes[32];
	double decoded[4];
	int layout;
	int type;
	int primitive;

	bool operator==(const ValueResult& other) const
	{
		return std::memcmp(bytes, other.bytes, sizeof(bytes)) == 0 &&
			std::memcmp(decoded, other.decoded, sizeof(decoded)) == 0 && layout == other.layout &&
			type == other.type && primitive == other.primitive;
	}
};

struct Work
{
	std::size_t mesh;
	std::vector<Value> values;
	unsigned rounds;
};

struct Outcome
{
	Result result;
	std::vector<ValueResult> values;
	// What the formats all threads read say.
	std::vector<std::int64_t> formats;
};

using Formats = std::vector<vfc::VertexFormat>;

void readFormats(std::vector<std::int64_t>& outcome, const Formats& formats)
{
	for (const vfc::VertexFormat& format : formats)
	{
		outcome.push_back(format.stride());
		for (const vfc::VertexElement& element : format)
		{
			auto found = format.find(element.name);
			outcome.push_back(found - format.begin());
			outcome.push_back(element.offset);
		}
		outcome.push_back(format.find("none of these") == format.end());
		vfc::VertexFormat copy(format);
		outcome.push_back(format.containsElements(copy));
		outcome.push_back(formats.front().containsElements(format));
		outcome.push_back(format == formats.back());
	}
}

ValueResult through(const Value& value)
{
	ValueResult result = {};
	vfc::VertexValue in(value.components[0], value.components[1], value.components[2], value.components[3]);
	if (value.bounds)
	{
		in.toData(result.bytes, value.layout, value.type, vfc::VertexValue(-1.0, -2.0, 0.0, 0.5),
			vfc::VertexValue(3.0, 2.0, 1.0, 1.0));
	}
	else
		in.toData(result.bytes, value.layout, value.type);
	vfc::VertexValue out;
	out.fromData(result.bytes, value.layout, value.type);
	for (unsigned i = 0; i < 4; ++i)
		result.decoded[i] = out[i];
	result.layout = static_cast<int>(vfc::elementLayoutFromName(value.name.c_str()));
	result.type = static_cast<int>(vfc::elementTypeFromName(value.name.c_str()));
	result.primitive = static_cast<int>(vfc::primitiveTypeFromName(value.name.c_str()));
	return result;
}

Outcome perform(const Work& work, const std::vector<Case>& meshes, const Inputs& inputs,
	const Formats& formats)
{
	Outcome outcome;
	readFormats(outcome.formats, formats);
	for (unsigned round = 0; round < work.rounds; ++round)
	{
		outcome.values.clear();
		for (std::size_t i = 0; i < work.values.size()/2; ++i)
			outcome.values.push_back(through(work.values[i]));
		outcome.result = convertFrom(meshes[work.mesh], inputs);
		for (std::size_t i = work.values.size()/2; i < work.values.size(); ++i)
			outcome.values.push_back(through(work.values[i]));
	}
	return outcome;
}

// In a process of its own, so that nothing was set up by earlier cases. Returns what is wrong.
std::string runThreads(const std::vector<Case>& meshes, const std::vector<Work>& works)
{
	std::vector<std::unique_ptr<Inputs>> inputs;
	for (const Case& testCase : meshes)
		inputs.emplace_back(new Inputs(testCase));
	Formats formats;
	for (const Case& testCase : meshes)
	{
		for (const Format& format : testCase.output)
			formats.push_back(format.make());
	}
	std::vector<Outcome> outcomes(works.size());
	std::atomic<std::size_t> waiting(works.size());
	std::vector<std::thread> threads;
	for (std::size_t i = 0; i < works.size(); ++i)
	{
		threads.emplace_back([&, i]
			{
				--waiting;
				while (waiting > 0)
					std::this_thread::yield();
				outcomes[i] = perform(works[i], meshes, *inputs[works[i].mesh], formats);
			});
	}
	for (std::thread& thread : threads)
		thread.join();
	for (std::size_t i = 0; i < works.size(); ++i)
	{
		Outcome alone = perform(works[i], meshes, *inputs[works[i].mesh], formats);
		if (!(alone.result == outcomes[i].result) || alone.result.messages != outcomes[i].result.messages)
			return pbt::format("the conversion in thread %zu gives another result than alone", i);
		if (!(alone.values == outcomes[i].values))
			return pbt::format("values or names in thread %zu give another result than alone", i);
		if (alone.formats != outcomes[i].formats)
			return pbt::format("thread %zu reads something else from formats than is read alone", i);
	}
	for (std::size_t i = 0; i < meshes.size(); ++i)
	{
		if (!inputs[i]->unchanged(meshes[i]))
			return "the input was changed";
	}
	return "";
}

// Makes a mesh one that can't be converted, so that messages are made.
bool fail(Source& source, Case& testCase, unsigned number)
{
	std::size_t kind = source.below(3);
	if (kind == 0)
	{
		Format& format = testCase.output[source.below(testCase.output.size())];
		std::string& name = format.elements[source.below(format.elements.size())].name;
		name = pbt::format("an element without input %u ", number) + name;
		return true;
	}
	Stream& stream = testCase.streams[source.below(testCase.streams.size())];
	if (kind == 1 && stream.indexType != IndexType::NoIndices && !stream.indices.empty() &&
		stream.vertexCount < ref::restartValue(stream.indexType))
	{
		stream.indexAlias = -1;
		for (Stream& other : testCase.streams)
			other.indexAlias = -1;
		stream.indices[source.below(stream.indices.size())] = stream.vertexCount;
		return true;
	}
	Stream copy = stream;
	copy.dataAlias = -1;
	copy.indexAlias = -1;
	testCase.streams.push_back(copy);
	return true;
}

void runParallel(Source& source, Context& context)
{
	Gen gen;
	gen.repeats = true;
	gen.gaps = false;
	gen.empty = true;
	gen.transforms = source.flip();
	gen.maxPrimitives = 16;
	std::vector<Case> meshes;
	unsigned meshCount = 1 + static_cast<unsigned>(source.below(3));
	bool failing = false;
	for (unsigned i = 0; i < meshCount; ++i)
	{
		meshes.push_back(generate(source, gen));
		if (source.below(4) == 0)
			failing = fail(source, meshes.back(), i) || failing;
		context.digest(meshes.back().digest());
	}
	std::vector<Work> works;
	unsigned threadCount = 2 + static_cast<unsigned>(source.below(3));
	for (unsigned i = 0; i < threadCount; ++i)
	{
		Work work;
		work.mesh = source.below(meshes.size());
		work.rounds = 1 + static_cast<unsigned>(source.below(3));
		unsigned valueCount = source.small(8);
		for (unsigned j = 0; j < valueCount; ++j)
		{
			Value value;
			for (double& component : value.components)
				component = static_cast<double>(source.irange(-4000, 4000))/(source.flip() ? 1000.0 : 1.0);
			std::pair<ElementLayout, ElementType> element = source.pick(ref::validElements());
			value.layout = element.first;
			value.type = element.second;
			value.bounds = source.flip();
			static const char* const names[] = {"X8", "r32g32b32a32", "E5Z9Y9X9_UFloat", "float", "SNORM", "TriangleFan",
				"pointlist", "nothing", ""};
			value.name = source.pick(names);
			work.values.push_back(value);
		}
		works.push_back(work);
		context.digest(work.mesh*16 + work.values.size());
	}
	std::string text = pbt::format("%u threads convert meshes", threadCount);
	for (const Work& work : works)
		text += pbt::format(" %zu (%u times, %zu values)", work.mesh, work.rounds, work.values.size());
	for (const Case& testCase : meshes)
		text += "\n" + testCase.text();
	context.describe(text);

	int ends[2];
	if (pipe(ends) != 0)
		context.fail("harness: no pipe");
	pid_t pid = fork();
	if (pid < 0)
	{
		close(ends[0]);
		close(ends[1]);
		context.fail("harness: no process");
	}
	if (pid == 0)
	{
		close(ends[0]);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		itimerval limit = {};
		limit.it_value.tv_sec = 25;
		setitimer(ITIMER_PROF, &limit, nullptr);
		std::string why = runThreads(meshes, works);
		std::size_t done = 0;
		while (done < why.size())
		{
			ssize_t size = write(ends[1], why.data() + done, why.size() - done);
			if (size <= 0)
				break;
			done += static_cast<std::size_t>(size);
		}
		_exit(why.empty() ? 0 : 1);
	}
	close(ends[1]);
	std::string why;
	char buffer[512];
	for (;;)
	{
		ssize_t size = read(ends[0], buffer, sizeof(buffer));
		if (size < 0 && errno == EINTR)
			continue;
		if (size <= 0)
			break;
		why.append(buffer, static_cast<std::size_t>(size));
	}
	close(ends[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
	if (WIFEXITED(status) && WEXITSTATUS(status) == 99)
		context.fail("the threads race for the same memory (ThreadSanitizer)");
	PBT_REQUIRE(context, WIFEXITED(status) && WEXITSTATUS(status) <= 1, "conversions in several threads crash (status %d)",
		status);
	PBT_REQUIRE(context, why.empty() && status == 0, "%s", why.c_str());

	context.checked(threadCount);
	context.labelIf(threadCount > 2, "more than two threads");
	bool shared = false;
	for (std::size_t i = 1; i < works.size(); ++i)
		shared = shared || works[i].mesh == works[0].mesh;
	context.labelIf(shared, "threads with the same input");
	context.labelIf(failing, "conversions that fail");
	context.labelIf(gen.transforms, "transforms");
	bool any = false;
	for (const Work& work : works)
		any = any || meshes[work.mesh].count > 0;
	if (any)
		context.nontrivial();
}

pbt::Property parallelProperty()
{
	pbt::Property property = {"C13",
		"1-3 random meshes as for C01 and C02 converted by 2-4 threads at the same time, each with its own converter, some of which can't be, up to "
		"three times, some from the same input memory, between reading and writing values in random formats and looking up "
		"names, and reading vertex formats that all of them share; in a fresh process for each case, under ThreadSanitizer, which reports memory used by two threads "
		"without order whether or not they collide. Results must be those of the same work done alone. Non-trivial: a mesh "
		"isn't empty. Distinct by the meshes and the assignment to threads.",
		&runParallel};
	property.assumptions = "Objects aren't shared by threads, but input memory and formats that are only read are.";
	return property;
}

pbt::Register c13(parallelProperty());

} // namespace
