// Property-based testing core: choice-sequence source, failure reporting, property registry.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

struct Fail { std::string msg; };
struct Discard {};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// A stream of choices. Every random decision of a property goes through draw(), is recorded, and can be
// replayed. Smaller values are "simpler", so shrinking lowers and deletes choices.
class Src {
public:
	enum Mode { RANDOM, REPLAY, BYTES };
	std::vector<uint32_t> rec;
	bool nt = false;           // set by the property when the case is non-trivial
	bool verbose = false;
	std::string notes;         // description of the case, only when verbose
	std::map<std::string, uint64_t>* tags = nullptr;

	Src(uint64_t seed, uint64_t index) : m_mode(RANDOM), m_state(seed), m_index(index) {}
	explicit Src(const std::vector<uint32_t>& choices) : m_mode(REPLAY), m_choices(choices) {}
	Src(const uint8_t* data, size_t size) : m_mode(BYTES), m_data(data), m_size(size) {}

	uint32_t draw(uint32_t n);           // uniform in [0,n)
	uint32_t strat(uint32_t n);          // in [0,n), cycles through all values with the case index
	bool flip() { return draw(2) == 1; }
	bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
	int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
	void note(const char* f, ...) __attribute__((format(printf, 2, 3)));
	void tag(const std::string& t) { if (tags) ++(*tags)[t]; }

private:
	uint64_t next();
	Mode m_mode;
	uint64_t m_state = 0, m_index = 0, m_strat_div = 1;
	std::vector<uint32_t> m_choices;
	size_t m_pos = 0;
	const uint8_t* m_data = nullptr;
	size_t m_size = 0;
};

extern Src* g_src; // the running case; null while calls must not be preceded by others
[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void discard() { throw Discard(); }

struct Prop {
	const char* id;
	void (*fn)(Src&);
	uint64_t quick;     // cases in the quick tier
	uint64_t thorough;  // cases in the thorough tier
	const char* rule;   // how cases are made and what makes one non-trivial
};
struct Known {
	const char* id;
	const char* key;
	bool (*still_fails)(std::string& detail);
};
std::vector<Prop>& props();
std::vector<Known>& knowns();
struct RegProp { RegProp(Prop p) { props().push_back(p); } };
struct RegKnown { RegKnown(Known k) { knowns().push_back(k); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define PROPERTY(id, fn, quick, thorough, rule) static RegProp CAT(reg_prop_, __LINE__)(Prop{id, fn, quick, thorough, rule})
#define KNOWN(id, key, fn) static RegKnown CAT(reg_known_, __LINE__)(Known{id, key, fn})
