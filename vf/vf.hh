/*
Contract harness interface.

The same harness text is used twice: compiled to LLVM IR, where the calls below
are given their meaning by the verifier (irv), and compiled natively, where they
read a replay file or draw random values (vf_native.cc).
*/
#ifndef VF_HH
#define VF_HH
#include <cstdint>
#include <cstring>
#include <cassert>
#include <cmath>
#include <climits>
#include <limits>
#include <iostream>
#include <algorithm>
#include <functional>
#include <random>
#include <utility>
#include <type_traits>

extern "C" {
uint64_t vf_any_raw(const char *, int, int);
int64_t vf_range_raw(const char *, int, int64_t, int64_t);
void vf_assume(bool);
void vf_assert(bool, const char *);
void vf_lemma(bool, const char *);
void vf_cover(bool, const char *);
uint32_t vf_choose_raw(const char *, uint32_t);
int vf_is_symbolic();
void vf_note(const char *);
}

#ifdef VF_NATIVE
struct VfEntry {
	const char *name;
	void (*func)();
	bool bounded;
	VfEntry *next;
	VfEntry(const char *n, void (*f)(), bool b);
};
#define VF_ENTRY(NAME) extern "C" void NAME(); static VfEntry vf_entry_##NAME(#NAME, NAME, false); extern "C" void NAME()
#define VF_BOUNDED(NAME) extern "C" void NAME(); static VfEntry vf_entry_##NAME(#NAME, NAME, true); extern "C" void NAME()
#else
#define VF_ENTRY(NAME) extern "C" void NAME(); extern "C" void NAME()
#define VF_BOUNDED(NAME) template <int VF_UNUSED> static void NAME##_unused()
#endif

template <typename T>
static inline T vf_any(const char *name, int idx = 0)
{
	if constexpr (std::is_same<T, bool>::value)
		return vf_any_raw(name, idx, 1) & 1;
	else if constexpr (std::is_same<T, float>::value) {
		uint32_t u = vf_any_raw(name, idx, 32);
		float f;
		std::memcpy(&f, &u, 4);
		return f;
	} else if constexpr (std::is_same<T, double>::value) {
		uint64_t u = vf_any_raw(name, idx, 64);
		double f;
		std::memcpy(&f, &u, 8);
		return f;
	} else
		return (T)vf_any_raw(name, idx, 8 * sizeof(T));
}
template <typename T>
static inline T vf_range(const char *name, int64_t lo, int64_t hi, int idx = 0)
{
	return (T)vf_range_raw(name, idx, lo, hi);
}
static inline int vf_choose(const char *name, int n)
{
	return vf_choose_raw(name, n);
}
template <typename T>
static inline void vf_fill(T *p, int n, const char *name)
{
	for (int i = 0; i < n; ++i)
		p[i] = vf_any<T>(name, i);
}
template <typename T>
static inline void vf_fill_range(T *p, int n, const char *name, int64_t lo, int64_t hi)
{
	for (int i = 0; i < n; ++i)
		p[i] = vf_range<T>(name, lo, hi, i);
}
#endif
