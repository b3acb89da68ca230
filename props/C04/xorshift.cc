#include "vf.hh"
#include "xorshift.hh"

// Marsaglia's recurrences, written from their definitions
static uint32_t spec32(uint32_t y)
{
	y = y ^ (y << 13);
	y = y ^ (y >> 17);
	return y ^ (y << 5);
}
static uint64_t spec64(uint64_t x)
{
	x = x ^ (x << 13);
	x = x ^ (x >> 7);
	return x ^ (x << 17);
}
struct S128 { uint32_t x, y, z, w; };
static S128 spec128(S128 s)
{
	uint32_t t = s.x ^ (s.x << 11);
	return S128 { s.y, s.z, s.w, s.w ^ (s.w >> 19) ^ t ^ (t >> 8) };
}
struct SW { uint32_t x, y, z, w, v, d; };
static SW specw(SW s)
{
	uint32_t t = s.x ^ (s.x >> 2);
	return SW { s.y, s.z, s.w, s.v, s.v ^ (s.v << 4) ^ t ^ (t << 1), s.d + 362437 };
}

VF_ENTRY(h_step32)
{
	uint32_t s = vf_any<uint32_t>("s"), r = vf_any<uint32_t>("r");
	CODE::Xorshift32 prng(s);
	for (int i = 0; i < 3; ++i) {
		s = spec32(s);
		vf_assert(prng() == s, "the next value follows the recurrence");
	}
	prng.reset(r);
	vf_assert(prng() == spec32(r), "reset restarts from the given seed");
	prng.reset();
	vf_assert(prng() == spec32(2463534242), "reset restarts from the default seed");
	CODE::Xorshift32 def;
	vf_assert(def() == spec32(2463534242), "default seed");
	vf_assert(prng.min() == 0 && prng.max() == UINT32_MAX, "value range");
}
VF_ENTRY(h_step64)
{
	uint64_t s = vf_any<uint64_t>("s"), r = vf_any<uint64_t>("r");
	CODE::Xorshift64 prng(s);
	for (int i = 0; i < 3; ++i) {
		s = spec64(s);
		vf_assert(prng() == s, "the next value follows the recurrence");
	}
	prng.reset(r);
	vf_assert(prng() == spec64(r), "reset restarts from the given seed");
	prng.reset();
	vf_assert(prng() == spec64(88172645463325252), "reset restarts from the default seed");
	CODE::Xorshift64 def;
	vf_assert(def() == spec64(88172645463325252), "default seed");
	vf_assert(prng.min() == 0 && prng.max() == UINT64_MAX, "value range");
}
VF_ENTRY(h_step128)
{
	S128 s { vf_any<uint32_t>("x"), vf_any<uint32_t>("y"), vf_any<uint32_t>("z"), vf_any<uint32_t>("w") };
	S128 first = s;
	CODE::Xorshift128 prng(s.x, s.y, s.z, s.w);
	for (int i = 0; i < 9; ++i) {
		s = spec128(s);
		vf_assert(prng() == s.w, "the next value follows the recurrence");
	}
	prng.reset(first.x, first.y, first.z, first.w);
	s = first;
	for (int i = 0; i < 5; ++i) {
		s = spec128(s);
		vf_assert(prng() == s.w, "reset restarts from the given seed");
	}
	prng.reset();
	CODE::Xorshift128 def;
	S128 d { 123456789, 362436069, 521288629, 88675123 };
	for (int i = 0; i < 5; ++i) {
		d = spec128(d);
		vf_assert(prng() == d.w, "reset restarts from the default seed");
		vf_assert(def() == d.w, "default seed");
	}
	vf_assert(prng.min() == 0 && prng.max() == UINT32_MAX, "value range");
}
VF_ENTRY(h_stepwow)
{
	SW s { vf_any<uint32_t>("x"), vf_any<uint32_t>("y"), vf_any<uint32_t>("z"), vf_any<uint32_t>("w"), vf_any<uint32_t>("v"), vf_any<uint32_t>("d") };
	SW first = s;
	CODE::Xorwow prng(s.x, s.y, s.z, s.w, s.v, s.d);
	for (int i = 0; i < 11; ++i) {
		s = specw(s);
		vf_assert(prng() == s.d + s.v, "the next value follows the recurrence");
	}
	prng.reset(first.x, first.y, first.z, first.w, first.v, first.d);
	s = first;
	for (int i = 0; i < 6; ++i) {
		s = specw(s);
		vf_assert(prng() == s.d + s.v, "reset restarts from the given seed");
	}
	prng.reset();
	CODE::Xorwow def;
	SW d { 123456789, 362436069, 521288629, 88675123, 5783321, 6615241 };
	for (int i = 0; i < 6; ++i) {
		d = specw(d);
		vf_assert(prng() == d.d + d.v, "reset restarts from the default seed");
		vf_assert(def() == d.d + d.v, "default seed");
	}
	vf_assert(prng.min() == 0 && prng.max() == UINT32_MAX, "value range");
}

// the object holds nothing but the state, so the steps above extend to every history
VF_ENTRY(h_state)
{
	CODE::Xorshift32 a(vf_any<uint32_t>("a"));
	uint32_t va = a();
	CODE::Xorshift32 a2(va);
	vf_lemma(!std::memcmp(&a, &a2, sizeof(a)), "state of the 32 bit generator is its last value");
	CODE::Xorshift64 b(vf_any<uint64_t>("b"));
	uint64_t vb = b();
	CODE::Xorshift64 b2(vb);
	vf_lemma(!std::memcmp(&b, &b2, sizeof(b)), "state of the 64 bit generator is its last value");
	S128 s { vf_any<uint32_t>("x"), vf_any<uint32_t>("y"), vf_any<uint32_t>("z"), vf_any<uint32_t>("w") };
	CODE::Xorshift128 c(s.x, s.y, s.z, s.w);
	c();
	s = spec128(s);
	CODE::Xorshift128 c2(s.x, s.y, s.z, s.w);
	vf_lemma(!std::memcmp(&c, &c2, sizeof(c)), "state of the 128 bit generator is its last four values");
}

// period: the step is linear over GF(2); with M its matrix, the order of M is 2^n-1
// when M^(2^n) = M and M^((2^n-1)/p) moves a vector for every prime p dividing 2^n-1
template <int N>
struct Vec {
	static const int K = (N + 63) / 64;
	uint64_t w[K];
	bool get(int i) const { return (w[i / 64] >> (i % 64)) & 1; }
};
template <int N>
static Vec<N> apply(const Vec<N> *col, Vec<N> v)
{
	Vec<N> r = {};
	for (int i = 0; i < N; ++i)
		if (v.get(i))
			for (int k = 0; k < Vec<N>::K; ++k)
				r.w[k] ^= col[i].w[k];
	return r;
}
template <int N>
static bool equal(Vec<N> a, Vec<N> b)
{
	for (int k = 0; k < Vec<N>::K; ++k)
		if (a.w[k] != b.w[k])
			return false;
	return true;
}
static Vec<32> step(Vec<32> v)
{
	CODE::Xorshift32 g(v.w[0]);
	Vec<32> r;
	r.w[0] = g();
	return r;
}
static Vec<64> step(Vec<64> v)
{
	CODE::Xorshift64 g(v.w[0]);
	Vec<64> r;
	r.w[0] = g();
	return r;
}
// the last four outputs are the state
static Vec<128> step(Vec<128> v)
{
	CODE::Xorshift128 g(v.w[0], v.w[0] >> 32, v.w[1], v.w[1] >> 32);
	Vec<128> r;
	r.w[0] = (v.w[0] >> 32) | (v.w[1] << 32);
	r.w[1] = (v.w[1] >> 32) | (uint64_t(g()) << 32);
	return r;
}
// the xorshift part of xorwow: the counter is removed from the output
static Vec<160> step(Vec<160> v)
{
	CODE::Xorwow g(v.w[0], v.w[0] >> 32, v.w[1], v.w[1] >> 32, v.w[2], 0u - 362437u);
	Vec<160> r;
	r.w[0] = (v.w[0] >> 32) | (v.w[1] << 32);
	r.w[1] = (v.w[1] >> 32) | (v.w[2] << 32);
	r.w[2] = g();
	return r;
}
// exp[]: exponents as little-endian words
template <int N>
static void period(const uint64_t (*exps)[3], int count)
{
	static Vec<N> pw[N + 1][N];
	for (int i = 0; i < N; ++i) {
		Vec<N> e = {};
		e.w[i / 64] = uint64_t(1) << (i % 64);
		pw[0][i] = step(e);
	}
	for (int k = 0; k < N; ++k)
		for (int i = 0; i < N; ++i)
			pw[k + 1][i] = apply<N>(pw[k], pw[k][i]);
	bool fix = true;
	for (int i = 0; i < N; ++i)
		fix = fix && equal<N>(pw[N][i], pw[0][i]);
	// M^(2^n) = M; invertibility makes that M^(2^n-1) = 1
	vf_assert(fix, "the state returns after 2^n-1 steps");
	for (int j = 0; j < count; ++j) {
		Vec<N> v = {};
		v.w[0] = 1;
		for (int k = 0; k < N; ++k)
			if ((exps[j][k / 64] >> (k % 64)) & 1)
				v = apply<N>(pw[k], v);
		Vec<N> one = {};
		one.w[0] = 1;
		vf_assert(!equal<N>(v, one), "the period is not a proper divisor of 2^n-1");
	}
	// no nonzero state maps to zero: a linear map with M^(2^n-1) = 1 is injective; check the kernel by rank
	static Vec<N> rows[N];
	int rank = 0;
	for (int i = 0; i < N; ++i)
		rows[i] = pw[0][i];
	for (int c = 0; c < N; ++c) {
		int p = rank;
		while (p < N && !rows[p].get(c))
			++p;
		if (p == N)
			continue;
		Vec<N> t = rows[p];
		rows[p] = rows[rank];
		rows[rank] = t;
		for (int i = 0; i < N; ++i)
			if (i != rank && rows[i].get(c))
				for (int k = 0; k < Vec<N>::K; ++k)
					rows[i].w[k] ^= rows[rank].w[k];
		++rank;
	}
	vf_assert(rank == N, "the step is a bijection of the states");
}
template <int N>
static void linear()
{
	Vec<N> a = {}, b = {}, c = {};
	for (int k = 0; k < N / 32; ++k) {
		a.w[k / 2] |= uint64_t(vf_any<uint32_t>("a", k)) << (32 * (k % 2));
		b.w[k / 2] |= uint64_t(vf_any<uint32_t>("b", k)) << (32 * (k % 2));
	}
	for (int k = 0; k < Vec<N>::K; ++k)
		c.w[k] = a.w[k] ^ b.w[k];
	Vec<N> x = step(a), y = step(b), z = step(c);
	for (int k = 0; k < Vec<N>::K; ++k)
		vf_assert(z.w[k] == (x.w[k] ^ y.w[k]), "the step is linear over GF(2)");
}
#include "exps.hh"
VF_ENTRY(h_linear32) { linear<32>(); }
VF_ENTRY(h_linear64) { linear<64>(); }
VF_ENTRY(h_linear128) { linear<128>(); }
VF_ENTRY(h_linear160) { linear<160>(); }
VF_ENTRY(h_period32) { period<32>(exps32, sizeof(exps32) / sizeof(exps32[0])); }
VF_ENTRY(h_period64) { period<64>(exps64, sizeof(exps64) / sizeof(exps64[0])); }
VF_ENTRY(h_period128) { period<128>(exps128, sizeof(exps128) / sizeof(exps128[0])); }
VF_ENTRY(h_period160) { period<160>(exps160, sizeof(exps160) / sizeof(exps160[0])); }
