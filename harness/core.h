// Property-based testing core: choice sequences, case context, property registry.
//
// A case is a pure function of a sequence of choices drawn from a Source. The choices come from a PRNG
// (search), from a recorded list (replay, shrinking) or from fuzzer bytes. Choice 0 is always the simplest
// alternative, an exhausted list yields 0, so shrinking works on the list alone.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace pbt
{

inline std::uint64_t mix64(std::uint64_t x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27))*0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

struct Failure
{
	std::string message;
};

class Source
{
public:
	static constexpr std::size_t maxChoices = 1 << 17;

	enum class Mode {Random, List, Bytes};

	void startRandom(std::uint64_t seed)
	{
		reset(Mode::Random);
		m_state = seed;
	}
	void startList(const std::uint64_t* list, std::size_t size)
	{
		reset(Mode::List);
		m_list = list;
		m_listSize = size;
	}
	void startBytes(const std::uint8_t* bytes, std::size_t size)
	{
		reset(Mode::Bytes);
		m_bytes = bytes;
		m_bytesSize = size;
	}
	// Where to record the choices: room for maxChoices values and a counter that stays current.
	void setLog(std::uint64_t* log, std::size_t* count)
	{
		m_log = log;
		m_logCount = count;
	}

	// A value in [0, bound), any 64-bit value for bound 0.
	std::uint64_t below(std::uint64_t bound)
	{
		if (m_count >= maxChoices)
			return 0;
		std::uint64_t value = raw(bound);
		if (m_log)
		{
			m_log[m_count] = value;
			*m_logCount = m_count + 1;
		}
		++m_count;
		return value;
	}
	std::uint64_t bits64() {return below(0);}
	// Inclusive range.
	std::uint64_t range(std::uint64_t lo, std::uint64_t hi) {return lo + below(hi - lo + 1);}
	int irange(int lo, int hi)
	{
		return static_cast<int>(static_cast<std::int64_t>(lo) +
			static_cast<std::int64_t>(below(static_cast<std::uint64_t>(static_cast<std::int64_t>(hi) - lo + 1))));
	}
	bool flip() {return below(2) != 0;}
	// True in num of den cases; shrinks to false.
	bool chance(unsigned num, unsigned den) {return below(den) >= den - num;}
	// Index of the chosen weight; put the simplest alternative first.
	unsigned weighted(std::initializer_list<unsigned> weights)
	{
		unsigned total = 0;
		for (unsigned w : weights)
			total += w;
		auto value = static_cast<unsigned>(below(total));
		unsigned i = 0;
		for (unsigned w : weights)
		{
			if (value < w)
				return i;
			value -= w;
			++i;
		}
		return 0;
	}
	template <typename T>
	const T& pick(const std::vector<T>& options) {return options[below(options.size())];}
	template <typename T, std::size_t N>
	const T& pick(const T (&options)[N]) {return options[below(N)];}
	// Small sizes more often: uniform over a uniformly chosen bound.
	unsigned small(unsigned max)
	{
		unsigned limit = static_cast<unsigned>(below(max + 1));
		return static_cast<unsigned>(below(limit + 1));
	}

	std::size_t count() const {return m_count;}
	bool full() const {return m_count >= maxChoices;}

private:
	void reset(Mode mode)
	{
		m_mode = mode;
		m_count = 0;
		m_bytesPos = 0;
		if (m_logCount)
			*m_logCount = 0;
	}
	std::uint64_t raw(std::uint64_t bound)
	{
		switch (m_mode)
		{
			case Mode::Random:
			{
				m_state += 0x9e3779b97f4a7c15ULL;
				std::uint64_t value = mix64(m_state);
				if (bound == 0)
					return value;
				return static_cast<std::uint64_t>((static_cast<unsigned __int128>(value)*bound) >> 64);
			}
			case Mode::List:
			{
				std::uint64_t value = m_count < m_listSize ? m_list[m_count] : 0;
				return bound && value >= bound ? value % bound : value;
			}
			case Mode::Bytes:
			{
				unsigned size = bound == 0 ? 8 : bound <= 0x100 ? 1 : bound <= 0x10000 ? 2 :
					bound <= 0x100000000ULL ? 4 : 8;
				std::uint64_t value = 0;
				for (unsigned i = 0; i < size && m_bytesPos < m_bytesSize; ++i)
					value |= std::uint64_t(m_bytes[m_bytesPos++]) << (8*i);
				return bound ? value % bound : value;
			}
		}
		return 0;
	}

	Mode m_mode = Mode::List;
	std::uint64_t m_state = 0;
	const std::uint64_t* m_list = nullptr;
	std::size_t m_listSize = 0;
	const std::uint8_t* m_bytes = nullptr;
	std::size_t m_bytesSize = 0;
	std::size_t m_bytesPos = 0;
	std::size_t m_count = 0;
	std::uint64_t* m_log = nullptr;
	std::size_t* m_logCount = nullptr;
};

inline std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string format(const char* fmt, ...)
{
	va_list args, copy;
	va_start(args, fmt);
	va_copy(copy, args);
	int size = std::vsnprintf(nullptr, 0, fmt, args);
	va_end(args);
	std::string result(static_cast<std::size_t>(size < 0 ? 0 : size), '\0');
	if (size > 0)
		std::vsnprintf(&result[0], result.size() + 1, fmt, copy);
	va_end(copy);
	return result;
}

struct Options
{
	bool thorough = false;
	std::string scratch;  // Scratch directory of this process, created and removed by the runner.
	std::string tool;     // The vfc executable under test.
	std::string verifDir;
};

// What one case reports about itself.
class Context
{
public:
	explicit Context(const Options& _options) : options(_options) {}

	const Options& options;
	bool wantText = false; // Set when replaying: describe() texts are kept.

	void label(const char* name) {labels.push_back(name);}
	void labelIf(bool condition, const char* name)
	{
		if (condition)
			labels.push_back(name);
	}
	void nontrivial() {isNontrivial = true;}
	// Distinctness is judged by what the case was about, not by its random choices.
	void digest(std::uint64_t value) {hash = mix64(hash ^ value);}
	void digest(const void* data, std::size_t size)
	{
		auto bytes = static_cast<const std::uint8_t*>(data);
		std::uint64_t h = 0xcbf29ce484222325ULL ^ size;
		for (std::size_t i = 0; i < size; ++i)
			h = (h ^ bytes[i])*0x100000001b3ULL;
		digest(h);
	}
	void digest(const std::string& text) {digest(text.data(), text.size());}
	void describe(std::string text) {description = std::move(text);}
	// Additional checked facts, reported as "checks" in the evidence.
	void checked(std::uint64_t count = 1) {checks += count;}

	[[noreturn]] void fail(const std::string& message) const {throw Failure{message};}
	void require(bool condition, const char* message) const
	{
		if (!condition)
			fail(message);
	}

	std::vector<const char*> labels;
	bool isNontrivial = false;
	std::uint64_t hash = 0;
	std::uint64_t checks = 0;
	std::string description;
};

#define PBT_REQUIRE(ctx, condition, ...) \
	do \
	{ \
		if (!(condition)) \
			(ctx).fail(pbt::format(__VA_ARGS__)); \
	} while (0)

struct Property
{
	const char* id;
	const char* rule; // How cases are made and what makes one non-trivial.
	void (*run)(Source&, Context&);
	// Cases enumerated completely before the random search, and what they are.
	std::uint64_t (*enumCount)(const Options&) = nullptr;
	void (*runEnum)(std::uint64_t, Context&) = nullptr;
	const char* enumRule = nullptr;
	// Called once after the search on the unchanged search result; prints KNOWN-FINDING lines.
	void (*known)(const Options&) = nullptr;
	bool spawns = false; // Uses processes and scratch files.
	const char* assumptions = nullptr; // Separated by newlines.
};

std::vector<Property>& registry();

struct Register
{
	explicit Register(const Property& property) {registry().push_back(property);}
};

bool knownFindingListed(const Options& options, const char* key, std::string* line = nullptr);

} // namespace pbt
