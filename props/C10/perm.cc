#include "vf.hh"
#include "permute.hh"
#include "interleave.hh"

template <typename T>
static T fresh(const char *name, int i) { return vf_any<T>(name, i); }
struct Rec { uint16_t a; uint8_t b; };
template <>
Rec fresh<Rec>(const char *name, int i) { return Rec{vf_any<uint16_t>(name, 2 * i), vf_any<uint8_t>(name, 2 * i + 1)}; }
static bool equal(const Rec &x, const Rec &y) { return x.a == y.a && x.b == y.b; }
template <typename T>
static bool equal(const T &x, const T &y) { return std::memcmp(&x, &y, sizeof(T)) == 0; }
static bool equal(const uint8_t &x, const uint8_t &y) { return x == y; }
static bool equal(const int &x, const int &y) { return x == y; }
static bool equal(const uint64_t &x, const uint64_t &y) { return x == y; }

template <int SIZE, int ORDER, typename T>
static void inter()
{
	const int L = SIZE / ORDER;
	T *in = new T[SIZE], *orig = new T[SIZE], *mid = new T[SIZE], *out = new T[SIZE];
	for (int i = 0; i < SIZE; ++i)
		in[i] = orig[i] = fresh<T>("in", i);
	CODE::Interleave<SIZE, ORDER>(mid, in);
	bool ok = true, same = true, back = true;
	for (int p = 0; p < SIZE; ++p)
		ok = ok & equal(mid[p], orig[(p / ORDER) + (p % ORDER) * L]);
	vf_assert(ok, "interleaving writes row by row what was read column by column");
	CODE::Deinterleave<SIZE, ORDER>(out, mid);
	for (int p = 0; p < SIZE; ++p) {
		back = back & equal(out[p], orig[p]);
		same = same & equal(in[p], orig[p]);
	}
	vf_assert(back, "deinterleaving restores the interleaved array");
	vf_assert(same, "the input array is left alone");
	CODE::Deinterleave<SIZE, ORDER>(mid, in);
	CODE::Interleave<SIZE, ORDER>(out, mid);
	back = true;
	for (int p = 0; p < SIZE; ++p)
		back = back & equal(out[p], orig[p]);
	vf_assert(back, "interleaving restores the deinterleaved array");
	delete[] in;
	delete[] orig;
	delete[] mid;
	delete[] out;
}
VF_ENTRY(h_interleave_small)
{
	switch (vf_choose("shape", 8)) {
	case 0: inter<1, 1, uint8_t>(); break;
	case 1: inter<6, 2, int>(); break;
	case 2: inter<6, 3, Rec>(); break;
	case 3: inter<7, 7, uint8_t>(); break;
	case 4: inter<7, 1, uint64_t>(); break;
	case 5: inter<64, 8, int>(); break;
	case 6: inter<60, 4, uint8_t>(); break;
	case 7: inter<60, 15, Rec>(); break;
	}
}
VF_ENTRY(h_interleave_large)
{
	switch (vf_choose("shape", 4)) {
	case 0: inter<1024, 32, uint8_t>(); break;
	case 1: inter<2048, 4, int>(); break;
	case 2: inter<4095, 273, uint8_t>(); break;
	case 3: inter<4096, 2048, uint64_t>(); break;
	}
}

// the documented generator
static uint32_t step(uint32_t y)
{
	y ^= y << 13;
	y ^= y >> 17;
	y ^= y << 5;
	return y;
}
template <int SIZE, typename T>
static void fisher()
{
	T *a = new T[SIZE], *orig = new T[SIZE], *spec = new T[SIZE];
	for (int i = 0; i < SIZE; ++i)
		a[i] = orig[i] = spec[i] = fresh<T>("in", i);
	CODE::FisherYatesShuffle<SIZE> *shuffle = new CODE::FisherYatesShuffle<SIZE>;
	CODE::ReverseFisherYatesShuffle<SIZE> *reverse = new CODE::ReverseFisherYatesShuffle<SIZE>;
	(*shuffle)(a);
	// position of every element under the shuffle of the indices
	int *pos = new int[SIZE];
	for (int i = 0; i < SIZE; ++i)
		pos[i] = i;
	uint32_t y = 2463534242u;
	for (int i = 0; i + 1 < SIZE; ++i) {
		y = step(y);
		int j = i + (int)(y % (uint32_t)(SIZE - i));
		int t = pos[i];
		pos[i] = pos[j];
		pos[j] = t;
	}
	bool ok = true, back = true;
	for (int i = 0; i < SIZE; ++i)
		ok = ok & equal(a[i], orig[pos[i]]);
	vf_assert(ok, "the shuffle is the permutation the generator defines");
	(*reverse)(a);
	for (int i = 0; i < SIZE; ++i)
		back = back & equal(a[i], orig[i]);
	vf_assert(back, "the reverse shuffle undoes the shuffle");
	(*reverse)(a);
	(*shuffle)(a);
	back = true;
	for (int i = 0; i < SIZE; ++i)
		back = back & equal(a[i], orig[i]);
	vf_assert(back, "the shuffle undoes the reverse shuffle");
	delete[] a;
	delete[] orig;
	delete[] spec;
	delete[] pos;
	delete shuffle;
	delete reverse;
}
VF_ENTRY(h_fisher_small)
{
	switch (vf_choose("size", 9)) {
	case 0: fisher<2, uint8_t>(); break;
	case 1: fisher<3, int>(); break;
	case 2: fisher<4, Rec>(); break;
	case 3: fisher<5, uint64_t>(); break;
	case 4: fisher<8, uint8_t>(); break;
	case 5: fisher<31, Rec>(); break;
	case 6: fisher<64, int>(); break;
	case 7: fisher<100, uint8_t>(); break;
	case 8: fisher<255, uint64_t>(); break;
	}
}
VF_ENTRY(h_fisher_large)
{
	switch (vf_choose("size", 3)) {
	case 0: fisher<1024, uint8_t>(); break;
	case 1: fisher<2048, int>(); break;
	case 2: fisher<5000, uint8_t>(); break;
	}
}
template <int SIZE, typename T>
static void reversal()
{
	T *a = new T[SIZE], *orig = new T[SIZE];
	for (int i = 0; i < SIZE; ++i)
		a[i] = orig[i] = fresh<T>("in", i);
	CODE::BitReversalPermute<SIZE>(a);
	bool ok = true, back = true;
	for (int i = 0; i < SIZE; ++i) {
		int r = 0;
		for (int k = 1, j = i; k < SIZE; k *= 2, j /= 2)
			r = 2 * r + j % 2;
		ok = ok & equal(a[i], orig[r]);
	}
	vf_assert(ok, "every element moves to its bit-reversed index");
	CODE::BitReversalPermute<SIZE>(a);
	for (int i = 0; i < SIZE; ++i)
		back = back & equal(a[i], orig[i]);
	vf_assert(back, "bit reversal undoes itself");
	delete[] a;
	delete[] orig;
}
VF_ENTRY(h_reversal)
{
	switch (vf_choose("size", 14)) {
	case 0: reversal<1, uint8_t>(); break;
	case 1: reversal<2, int>(); break;
	case 2: reversal<4, Rec>(); break;
	case 3: reversal<8, uint64_t>(); break;
	case 4: reversal<16, uint8_t>(); break;
	case 5: reversal<32, Rec>(); break;
	case 6: reversal<64, int>(); break;
	case 7: reversal<128, uint8_t>(); break;
	case 8: reversal<256, uint64_t>(); break;
	case 9: reversal<512, uint8_t>(); break;
	case 10: reversal<1024, int>(); break;
	case 11: reversal<2048, uint8_t>(); break;
	case 12: reversal<4096, uint8_t>(); break;
	case 13: reversal<16384, uint8_t>(); break;
	}
}
