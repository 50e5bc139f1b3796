#include "core.h"

std::string vfmt(const char* f, va_list ap) {
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, f, ap2); va_end(ap2);
	std::string s((size_t)n + 1, 0);
	vsnprintf(&s[0], s.size(), f, ap);
	s.resize((size_t)n);
	return s;
}
std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
void fail(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Fail{s}; }
void Src::note(const char* f, ...) {
	if (!verbose) return;
	va_list ap; va_start(ap, f); notes += vfmt(f, ap); va_end(ap); notes += "; ";
}
uint64_t Src::next() {
	uint64_t z = (m_state += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
uint32_t Src::draw(uint32_t n) {
	uint32_t v = 0;
	if (n > 1) {
		if (m_mode == RANDOM) v = (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32);
		else if (m_mode == REPLAY) { v = m_pos < m_choices.size() ? m_choices[m_pos] % n : 0; ++m_pos; }
		else {
			int bytes = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x1000000 ? 3 : 4;
			for (int i = 0; i < bytes; ++i) { v = (v << 8) | (m_pos < m_size ? m_data[m_pos] : 0); ++m_pos; }
			v %= n;
		}
	}
	else if (m_mode == REPLAY) ++m_pos;
	rec.push_back(v);
	return v;
}
uint32_t Src::strat(uint32_t n) {
	if (m_mode != RANDOM) return draw(n);
	uint32_t v = (uint32_t)((m_index / m_strat_div) % n);
	m_strat_div *= n;
	rec.push_back(v);
	return v;
}
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
std::vector<Known>& knowns() { static std::vector<Known> v; return v; }
Src* g_src = nullptr;
