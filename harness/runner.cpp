// Runs one property: parallel search in forked workers, shrinking, replay, evidence.
#include "core.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iterator>
#include <map>
#include <sstream>
#include <unordered_set>

#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

std::vector<Property>& registry()
{
	static std::vector<Property> properties;
	return properties;
}

bool knownFindingListed(const Options& options, const char* key, std::string* line)
{
	static std::map<std::string, std::pair<bool, std::string>> cache;
	auto cached = cache.find(key);
	if (cached != cache.end())
	{
		if (line && cached->second.first)
			*line = cached->second.second;
		return cached->second.first;
	}
	cache[key] = std::make_pair(false, std::string());
	std::ifstream stream(options.verifDir + "/KNOWN_FINDINGS");
	std::string cur;
	std::string prefix = std::string("known: ") + key + " ";
	while (std::getline(stream, cur))
	{
		if (cur.compare(0, prefix.size(), prefix) == 0)
		{
			cache[key] = std::make_pair(true, cur.substr(prefix.size()));
			if (line)
				*line = cur.substr(prefix.size());
			return true;
		}
	}
	return false;
}

} // namespace pbt

using namespace pbt;

namespace
{

constexpr std::size_t maxHashes = 1 << 18;
constexpr std::size_t maxLabels = 96;
constexpr std::size_t sampleSize = 1600;
constexpr std::size_t sampleCount = 3;
constexpr int caseCpuSeconds = 25;

struct Label
{
	char name[60];
	std::uint64_t count;
};

enum Status : int {Running, Passed, Failed};

struct Shared
{
	volatile int status;
	volatile int stop;
	volatile std::uint64_t caseIndex;
	std::size_t choiceCount;
	char message[4000];
	char description[60000];

	std::uint64_t evaluations;
	std::uint64_t enumerated;
	std::uint64_t nontrivial;
	std::uint64_t checks;
	std::size_t labelCount;
	Label labels[maxLabels];
	std::size_t samples;
	char sampleText[sampleCount][sampleSize];
	std::size_t hashCount;

	std::uint64_t choices[Source::maxChoices];
	std::uint64_t hashes[maxHashes];
};

Shared* newShared()
{
	void* data = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (data == MAP_FAILED)
	{
		std::perror("mmap");
		std::exit(3);
	}
	return static_cast<Shared*>(data);
}

double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void armTimer()
{
	itimerval timer = {};
	timer.it_value.tv_sec = caseCpuSeconds;
	setitimer(ITIMER_PROF, &timer, nullptr);
}

struct Case
{
	bool isEnum = false;
	std::uint64_t enumIndex = 0;
	std::vector<std::uint64_t> choices;
};

void removeTree(const std::string& path)
{
	struct stat info;
	if (path.size() < 8 || lstat(path.c_str(), &info) != 0)
		return;
	if (S_ISDIR(info.st_mode))
	{
		chmod(path.c_str(), 0700);
		if (DIR* dir = opendir(path.c_str()))
		{
			while (dirent* entry = readdir(dir))
			{
				if (std::strcmp(entry->d_name, ".") != 0 && std::strcmp(entry->d_name, "..") != 0)
					removeTree(path + "/" + entry->d_name);
			}
			closedir(dir);
		}
		rmdir(path.c_str());
	}
	else
		unlink(path.c_str());
}

std::string makeScratch()
{
	const char* base = std::getenv("TMPDIR");
	std::string path = std::string(base && *base ? base : "/tmp") + "/vfcpbt.XXXXXX";
	std::vector<char> buffer(path.begin(), path.end());
	buffer.push_back(0);
	if (!mkdtemp(buffer.data()))
	{
		std::perror("mkdtemp");
		std::exit(3);
	}
	chmod(buffer.data(), 0755);
	return buffer.data();
}

// Runs a case in this process; reports into shared.
bool execute(const Property& property, const Options& options, Source& source, const Case* enumCase,
	Shared& shared, bool wantText, bool count)
{
	Context context(options);
	context.wantText = wantText || shared.nontrivial == 0 || shared.nontrivial == 49 ||
		shared.nontrivial == 499;
	std::string message;
	bool failed = false;
	try
	{
		if (enumCase)
			property.runEnum(enumCase->enumIndex, context);
		else
			property.run(source, context);
	}
	catch (const Failure& failure)
	{
		message = failure.message;
		// No fault of the code under test: no memory, address space, processes or disk space for the case.
		failed = message.compare(0, 8, "harness:") != 0;
		if (!failed)
		{
			context.label("couldn't be run");
			context.isNontrivial = false;
		}
	}
	catch (const std::exception& e)
	{
		failed = true;
		message = std::string("unexpected exception: ") + e.what();
	}

	if (wantText || failed)
	{
		std::snprintf(shared.description, sizeof(shared.description), "%s",
			context.description.c_str());
		std::snprintf(shared.message, sizeof(shared.message), "%s", message.c_str());
	}
	if (count)
	{
		++shared.evaluations;
		if (enumCase)
			++shared.enumerated;
		shared.checks += context.checks;
		for (const char* name : context.labels)
		{
			std::size_t i = 0;
			for (; i < shared.labelCount; ++i)
			{
				if (std::strcmp(shared.labels[i].name, name) == 0)
					break;
			}
			if (i == shared.labelCount)
			{
				if (i == maxLabels)
					continue;
				std::snprintf(shared.labels[i].name, sizeof(shared.labels[i].name), "%s", name);
				shared.labels[i].count = 0;
				++shared.labelCount;
			}
			++shared.labels[i].count;
		}
		if (context.isNontrivial)
		{
			++shared.nontrivial;
			if (shared.hashCount < maxHashes)
				shared.hashes[shared.hashCount++] = context.hash;
			if (shared.samples < sampleCount && !context.description.empty() &&
				(shared.nontrivial == 1 || shared.nontrivial == 50 || shared.nontrivial == 500))
			{
				std::snprintf(shared.sampleText[shared.samples++], sampleSize, "%s",
					context.description.c_str());
			}
		}
	}
	return !failed;
}

// Runs a case in a forked child. Fills message, description and the choices consumed.
struct Outcome
{
	bool failed = false;
	bool timeout = false;
	std::string message;
	std::string description;
	std::vector<std::uint64_t> choices;
};

std::string crashLog;

Outcome runForked(const Property& property, const Options& options, const Case& testCase,
	Shared& shared)
{
	shared.status = Running;
	shared.choiceCount = 0;
	shared.message[0] = 0;
	shared.description[0] = 0;
	std::fflush(stdout);
	std::fflush(stderr);
	pid_t pid = fork();
	if (pid < 0)
	{
		std::perror("fork");
		std::exit(3);
	}
	if (pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int fd = open(crashLog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0)
			dup2(fd, 2);
		Options childOptions = options;
		if (property.spawns)
		{
			childOptions.scratch = options.scratch + "/replay";
			removeTree(childOptions.scratch);
			mkdir(childOptions.scratch.c_str(), 0755);
		}
		Source source;
		source.setLog(shared.choices, &shared.choiceCount);
		source.startList(testCase.choices.data(), testCase.choices.size());
		armTimer();
		bool passed = execute(property, childOptions, source, testCase.isEnum ? &testCase : nullptr,
			shared, true, false);
		shared.status = passed ? Passed : Failed;
		std::fflush(stdout);
		_exit(0);
	}

	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	Outcome outcome;
	outcome.description = shared.description;
	outcome.choices.assign(shared.choices, shared.choices + shared.choiceCount);
	if (shared.status == Passed)
		return outcome;

	outcome.failed = true;
	if (shared.status == Failed)
		outcome.message = shared.message;
	else
	{
		if (WIFSIGNALED(status))
		{
			outcome.timeout = WTERMSIG(status) == SIGPROF;
			outcome.message = outcome.timeout ? format("no end after %d s of CPU time", caseCpuSeconds) :
				format("crash: signal %d", WTERMSIG(status));
		}
		else
			outcome.message = format("crash: exit code %d", WEXITSTATUS(status));
		std::ifstream stream(crashLog);
		std::string log((std::istreambuf_iterator<char>(stream)), {});
		outcome.message += "\n" + log.substr(0, 3000);
	}
	return outcome;
}

bool shortlexLess(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b)
{
	if (a.size() != b.size())
		return a.size() < b.size();
	return a < b;
}

Case shrink(const Property& property, const Options& options, Case best, Shared& shared,
	double seconds, unsigned& executions)
{
	if (best.isEnum)
		return best;
	double end = now() + seconds;
	auto strip = [](std::vector<std::uint64_t>& v)
	{
		while (!v.empty() && v.back() == 0)
			v.pop_back();
	};
	auto attempt = [&](std::vector<std::uint64_t> choices)
	{
		strip(choices);
		if (!shortlexLess(choices, best.choices) || now() > end)
			return false;
		Case candidate;
		candidate.choices = choices;
		++executions;
		Outcome outcome = runForked(property, options, candidate, shared);
		if (!outcome.failed || outcome.timeout)
			return false;
		// The consumed choices are the canonical form.
		strip(outcome.choices);
		best.choices = shortlexLess(outcome.choices, choices) ? outcome.choices : choices;
		return true;
	};
	strip(best.choices);

	bool progress = true;
	while (progress && now() < end)
	{
		progress = false;
		// Delete chunks.
		for (std::size_t size = std::max<std::size_t>(best.choices.size()/2, 1); size > 0; size /= 2)
		{
			for (std::size_t pos = best.choices.size(); pos > 0 && now() < end;)
			{
				std::size_t begin = pos > size ? pos - size : 0;
				std::vector<std::uint64_t> candidate = best.choices;
				if (begin >= candidate.size())
				{
					pos = candidate.size();
					if (pos == 0)
						break;
					begin = pos > size ? pos - size : 0;
				}
				candidate.erase(candidate.begin() + begin,
					candidate.begin() + std::min(begin + size, candidate.size()));
				if (attempt(candidate))
					progress = true;
				pos = begin;
			}
		}
		// Zero chunks.
		for (std::size_t size = std::max<std::size_t>(best.choices.size()/4, 1); size > 1; size /= 2)
		{
			for (std::size_t pos = 0; pos < best.choices.size() && now() < end; pos += size)
			{
				std::vector<std::uint64_t> candidate = best.choices;
				std::fill(candidate.begin() + pos,
					candidate.begin() + std::min(pos + size, candidate.size()), 0);
				if (attempt(candidate))
					progress = true;
			}
		}
		// Minimize values.
		for (std::size_t i = 0; i < best.choices.size() && now() < end; ++i)
		{
			if (best.choices[i] == 0)
				continue;
			auto with = [&](std::uint64_t value)
			{
				std::vector<std::uint64_t> candidate = best.choices;
				if (i >= candidate.size() || value >= candidate[i])
					return false;
				candidate[i] = value;
				return attempt(candidate);
			};
			if (with(0))
			{
				progress = true;
				continue;
			}
			std::uint64_t low = 0;
			while (i < best.choices.size() && best.choices[i] > low + 1 && now() < end)
			{
				std::uint64_t mid = low + (best.choices[i] - low)/2;
				if (with(mid))
					progress = true;
				else
					low = mid;
			}
		}
		// Delete a choice and decrement an earlier one (a count).
		for (std::size_t i = 0; i + 1 < best.choices.size() && now() < end; ++i)
		{
			if (best.choices[i] == 0 || best.choices[i] > 64)
				continue;
			for (std::size_t j = i + 1; j < std::min(best.choices.size(), i + 24); ++j)
			{
				std::vector<std::uint64_t> candidate = best.choices;
				--candidate[i];
				candidate.erase(candidate.begin() + j);
				if (attempt(candidate))
				{
					progress = true;
					break;
				}
			}
		}
	}
	return best;
}

std::string jsonString(const std::string& text)
{
	std::string result = "\"";
	for (unsigned char c : text)
	{
		if (c == '"' || c == '\\')
		{
			result += '\\';
			result += static_cast<char>(c);
		}
		else if (c < 0x20 || c >= 0x7f)
			result += format("\\u%04x", c);
		else
			result += static_cast<char>(c);
	}
	return result + "\"";
}

// Whatever a case has in it, for a terminal or a log.
std::string printable(const std::string& text)
{
	std::string result;
	for (unsigned char c : text)
	{
		if ((c < 0x20 && c != '\n' && c != '\t') || c >= 0x7f)
			result += format("\\x%02x", c);
		else
			result += static_cast<char>(c);
	}
	return result;
}

bool writeReplay(const std::string& path, const Property& property, const Case& testCase,
	const Outcome& outcome)
{
	std::ofstream stream(path);
	stream << "property " << property.id << "\n";
	if (testCase.isEnum)
		stream << "enum " << testCase.enumIndex << "\n";
	else
	{
		stream << "choices";
		for (std::uint64_t choice : testCase.choices)
			stream << ' ' << choice;
		stream << "\n";
	}
	stream << "--\n" << outcome.message << "\n--\n" << outcome.description << "\n";
	return stream.good();
}

bool readReplay(const std::string& path, std::string& id, Case& testCase)
{
	std::ifstream stream(path);
	std::string line;
	while (std::getline(stream, line) && line != "--")
	{
		std::istringstream words(line);
		std::string key;
		words >> key;
		if (key == "property")
			words >> id;
		else if (key == "enum")
		{
			testCase.isEnum = true;
			words >> testCase.enumIndex;
		}
		else if (key == "choices")
		{
			std::uint64_t value;
			while (words >> value)
				testCase.choices.push_back(value);
		}
	}
	return !id.empty();
}

const Property* findProperty(const std::string& id)
{
	for (const Property& property : registry())
	{
		if (id == property.id)
			return &property;
	}
	return nullptr;
}

std::uint64_t seedFor(std::uint64_t seed, const char* id, std::uint64_t index)
{
	std::uint64_t h = mix64(seed);
	for (const char* c = id; *c; ++c)
		h = mix64(h ^ static_cast<unsigned char>(*c));
	return mix64(h ^ mix64(index));
}

} // namespace

#ifdef PBT_FUZZ

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
	static const Property* property = findProperty(std::getenv("PBT_PROP"));
	static Options options;
	if (options.verifDir.empty() && std::getenv("PBT_VERIF"))
		options.verifDir = std::getenv("PBT_VERIF");
	Source source;
	source.startBytes(data, size);
	Context context(options);
	try
	{
		property->run(source, context);
	}
	catch (const Failure& failure)
	{
		if (failure.message.compare(0, 8, "harness:") == 0)
			return 0;
		std::fprintf(stderr, "FAILURE: %s\n", failure.message.c_str());
		std::abort();
	}
	return 0;
}

#else

int main(int argc, char** argv)
{
	std::string id, evidencePath, replayPath, replayDir = ".", bytesPath;
	std::uint64_t seed = 1;
	double budget = 15;
	unsigned workers = 8;
	Options options;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string key = argv[i];
		std::string value = argv[i + 1];
		if (key == "--prop")
			id = value;
		else if (key == "--seed")
			seed = std::strtoull(value.c_str(), nullptr, 10);
		else if (key == "--tier")
			options.thorough = value == "thorough";
		else if (key == "--budget")
			budget = std::atof(value.c_str());
		else if (key == "--workers")
			workers = static_cast<unsigned>(std::atoi(value.c_str()));
		else if (key == "--evidence")
			evidencePath = value;
		else if (key == "--replay")
			replayPath = value;
		else if (key == "--replay-dir")
			replayDir = value;
		else if (key == "--bytes")
			bytesPath = value;
		else if (key == "--tool")
			options.tool = value;
		else if (key == "--verif")
			options.verifDir = value;
	}

	signal(SIGPIPE, SIG_IGN);
	Case replayCase;
	if (!replayPath.empty() && !readReplay(replayPath, id, replayCase))
	{
		std::fprintf(stderr, "can't read %s\n", replayPath.c_str());
		return 3;
	}
	const Property* found = findProperty(id);
	if (!found)
	{
		std::fprintf(stderr, "unknown property '%s'\n", id.c_str());
		return 3;
	}
	const Property& property = *found;

	double start = now();
	std::string scratchBase = makeScratch();
	options.scratch = scratchBase;
	crashLog = scratchBase + "/crash.log";
	Shared* mainShared = newShared();

	if (!replayPath.empty())
	{
		Outcome outcome = runForked(property, options, replayCase, *mainShared);
		std::printf("%s\n%s\n%s\n", printable(outcome.description).c_str(),
			outcome.failed ? "FAILED" : "passed", printable(outcome.message).c_str());
		removeTree(scratchBase);
		if (outcome.failed)
			std::printf("VIOLATION property=%s replay=%s\n", property.id, replayPath.c_str());
		return outcome.failed ? 1 : 0;
	}

	std::uint64_t enumCount = property.enumCount ? property.enumCount(options) : 0;
	std::vector<Shared*> shared(workers);
	for (Shared*& s : shared)
		s = newShared();
	std::vector<std::uint64_t> nextIndex(workers);
	for (unsigned w = 0; w < workers; ++w)
		nextIndex[w] = w;

	double searchEnd = now() + budget;
	bool violation = false;
	std::string violationReplay;
	unsigned unreproduced = 0;
	unsigned shrinkRuns = 0;
	std::map<pid_t, unsigned> running;
	Case failing;
	bool haveFailing = false;

	if (!bytesPath.empty())
	{
		// A failing input of the coverage-guided fuzzer: turn it into choices.
		std::ifstream stream(bytesPath, std::ios::binary);
		std::vector<std::uint8_t> bytes((std::istreambuf_iterator<char>(stream)), {});
		pid_t pid = fork();
		if (pid == 0)
		{
			int fd = open(crashLog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (fd >= 0)
				dup2(fd, 2);
			Source source;
			source.setLog(mainShared->choices, &mainShared->choiceCount);
			source.startBytes(bytes.data(), bytes.size());
			armTimer();
			execute(property, options, source, nullptr, *mainShared, true, false);
			_exit(0);
		}
		int status;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		failing.choices.assign(mainShared->choices, mainShared->choices + mainShared->choiceCount);
		haveFailing = true;
		searchEnd = now();
	}

	auto startWorker = [&](unsigned w)
	{
		std::fflush(stdout);
		std::fflush(stderr);
		pid_t pid = fork();
		if (pid < 0)
		{
			std::perror("fork");
			std::exit(3);
		}
		if (pid > 0)
		{
			running[pid] = w;
			return;
		}
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		Shared& s = *shared[w];
		int fd = open((scratchBase + "/worker" + std::to_string(w)).c_str(),
			O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0)
			dup2(fd, 2);
		Options workerOptions = options;
		if (property.spawns)
		{
			workerOptions.scratch = scratchBase + "/w" + std::to_string(w);
			removeTree(workerOptions.scratch);
			mkdir(workerOptions.scratch.c_str(), 0755);
		}
		Source source;
		source.setLog(s.choices, &s.choiceCount);
		// Enumerated cases always run completely, and leave some time for random ones.
		double end = enumCount > 0 && nextIndex[w] < enumCount ? 0 : searchEnd;
		for (std::uint64_t index = nextIndex[w]; !s.stop; index += workers)
		{
			if (index >= enumCount)
			{
				if (end == 0)
					end = std::max(searchEnd, now() + budget/2);
				if (now() >= end)
					break;
			}
			s.caseIndex = index;
			s.status = Running;
			Case enumCase;
			enumCase.isEnum = true;
			enumCase.enumIndex = index;
			armTimer();
			source.startRandom(seedFor(seed, property.id, index));
			if (!execute(property, workerOptions, source, index < enumCount ? &enumCase : nullptr, s,
					false, true))
			{
				s.status = Failed;
				_exit(0);
			}
		}
		s.status = Passed;
		_exit(0);
	};

	for (;;)
	{
		if (!haveFailing)
		{
			for (unsigned w = 0; w < workers; ++w)
			{
				shared[w]->stop = 0;
				startWorker(w);
			}
		}
		while (!running.empty())
		{
			int status;
			pid_t pid = wait(&status);
			if (pid < 0)
			{
				if (errno == EINTR)
					continue;
				break;
			}
			auto it = running.find(pid);
			if (it == running.end())
				continue;
			unsigned w = it->second;
			running.erase(it);
			Shared& s = *shared[w];
			if (s.status == Passed)
			{
				nextIndex[w] = s.caseIndex + workers;
				continue;
			}
			// Failed or died.
			nextIndex[w] = s.caseIndex + workers;
			if (s.status == Running)
				++s.evaluations;
			if (!haveFailing)
			{
				haveFailing = true;
				failing = Case();
				if (s.caseIndex < enumCount)
				{
					failing.isEnum = true;
					failing.enumIndex = s.caseIndex;
				}
				else
					failing.choices.assign(s.choices, s.choices + s.choiceCount);
				for (Shared* other : shared)
					other->stop = 1;
			}
		}
		if (!haveFailing)
			break;

		// A failure counts only if it fails again each time it is run, on its own.
		bool reproduced = true;
		Outcome outcome;
		for (int i = 0; i < 3 && reproduced; ++i)
		{
			outcome = runForked(property, options, failing, *mainShared);
			reproduced = outcome.failed;
		}
		if (reproduced)
		{
			Case small = outcome.timeout ? failing :
				shrink(property, options, failing, *mainShared, options.thorough ? 120 : 40, shrinkRuns);
			for (int i = 0; i < 3 && reproduced; ++i)
			{
				outcome = runForked(property, options, small, *mainShared);
				reproduced = outcome.failed;
			}
			if (!reproduced)
			{
				small = failing;
				reproduced = true;
				outcome = runForked(property, options, small, *mainShared);
			}
			violation = true;
			violationReplay = replayDir + "/" + property.id + ".replay";
			mkdir(replayDir.c_str(), 0755);
			writeReplay(violationReplay, property, small, outcome);
			std::printf("%s: %s\n%s\n", property.id, printable(outcome.message).c_str(),
				printable(outcome.description.substr(0, 4000)).c_str());
			break;
		}
		++unreproduced;
		std::printf("note: a failure did not reproduce and was set aside\n");
		haveFailing = false;
		if (now() >= searchEnd)
			break;
	}

	// Merge what the workers covered.
	std::uint64_t evaluations = 0, enumerated = 0, nontrivial = 0, checks = 0;
	std::unordered_set<std::uint64_t> distinct;
	std::map<std::string, std::uint64_t> labels;
	std::vector<std::string> samples;
	for (Shared* s : shared)
	{
		evaluations += s->evaluations;
		enumerated += s->enumerated;
		nontrivial += s->nontrivial;
		checks += s->checks;
		distinct.insert(s->hashes, s->hashes + s->hashCount);
		for (std::size_t i = 0; i < s->labelCount; ++i)
			labels[s->labels[i].name] += s->labels[i].count;
		for (std::size_t i = 0; i < s->samples && samples.size() < 6; ++i)
			samples.push_back(s->sampleText[i]);
	}
	if (samples.empty())
		samples.push_back("(none: no non-trivial case was completed)");

	if (!violation && property.known)
		property.known(options);

	if (!evidencePath.empty())
	{
		std::ofstream stream(evidencePath);
		stream << "{\n  \"property\": " << jsonString(property.id) << ",\n  \"tier\": " <<
			(options.thorough ? "\"thorough\"" : "\"quick\"") << ",\n  \"seed\": " << seed <<
			",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": " << evaluations <<
			",\n    \"distinct_nontrivial\": " << distinct.size() << ",\n    \"rule\": " <<
			jsonString(property.rule) << ",\n    \"checks\": " << checks <<
			",\n    \"nontrivial\": " << nontrivial;
		if (enumCount)
		{
			stream << ",\n    \"enumerated\": " << enumerated << ",\n    \"enumerated_space\": " <<
				enumCount << ",\n    \"enumerated_rule\": " <<
				jsonString(property.enumRule ? property.enumRule : "");
		}
		if (unreproduced)
			stream << ",\n    \"unreproduced_failures\": " << unreproduced;
		if (shrinkRuns)
			stream << ",\n    \"shrink_executions\": " << shrinkRuns;
		stream << ",\n    \"classes\": {";
		bool first = true;
		for (const auto& label : labels)
		{
			stream << (first ? "\n      " : ",\n      ") << jsonString(label.first) << ": " << label.second;
			first = false;
		}
		stream << "\n    },\n    \"samples\": [";
		first = true;
		for (const std::string& sample : samples)
		{
			stream << (first ? "\n      " : ",\n      ") << jsonString(sample);
			first = false;
		}
		stream << "\n    ]\n  },\n  \"assumptions\": [";
		if (property.assumptions)
		{
			std::istringstream lines(property.assumptions);
			std::string line;
			first = true;
			while (std::getline(lines, line))
			{
				stream << (first ? "\n    " : ",\n    ") << jsonString(line);
				first = false;
			}
		}
		stream << "\n  ],\n  \"wall_s\": " << format("%.3f", now() - start) << ",\n  \"violations\": " <<
			(violation ? 1 : 0) << "\n}\n";
	}

	removeTree(scratchBase);
	std::printf("%s: %llu cases, %llu distinct non-trivial, %llu checks, %.1f s\n", property.id,
		static_cast<unsigned long long>(evaluations), static_cast<unsigned long long>(distinct.size()),
		static_cast<unsigned long long>(checks), now() - start);
	if (violation)
	{
		std::printf("VIOLATION property=%s replay=%s\n", property.id, violationReplay.c_str());
		return 1;
	}
	auto notRun = labels.find("couldn't be run");
	if (notRun != labels.end() && notRun->second > evaluations/20)
	{
		std::printf("%s: no answer, as there were no means to run many of the cases\n", property.id);
		return 3;
	}
	return 0;
}

#endif
