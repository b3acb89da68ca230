#include "vf.hh"
#include "rotate.hh"

template <typename T, int SIZE, int WIDTH>
static void rotation()
{
	typedef SIMD<T, SIZE> V;
	CODE::Rotate<V, WIDTH> *rot = new CODE::Rotate<V, WIDTH>;
	V a;
	for (int i = 0; i < SIZE; ++i)
		a.v[i] = vf_any<T>("lane", i);
	bool ok = true, neg = true, back = true;
	for (int s = 0; s < WIDTH; ++s) {
		V r = (*rot)(a, s);
		for (int j = 0; j < WIDTH; ++j)
			ok = ok & (r.v[j] == a.v[(j - s + WIDTH) % WIDTH]);
		V n = (*rot)(a, s - WIDTH);
		for (int j = 0; j < WIDTH; ++j)
			neg = neg & (n.v[j] == a.v[(j - s + WIDTH) % WIDTH]);
		V b = (*rot)(r, -s);
		for (int j = 0; j < WIDTH; ++j)
			back = back & (b.v[j] == a.v[j]);
	}
	vf_assert(ok, "rotation moves every lane up by the amount, modulo the width");
	vf_assert(neg, "a negative amount rotates the other way");
	vf_assert(back, "rotating back restores the vector");
	delete rot;
}
template <typename T, int SIZE, int... W>
static void widths(std::integer_sequence<int, W...>)
{
	int c = vf_choose("width", sizeof...(W));
	((c == W ? rotation<T, SIZE, W + 1>() : void()), ...);
}
#define ROT(T, SIZE) VF_ENTRY(h_##T##_##SIZE) { widths<T, SIZE>(std::make_integer_sequence<int, SIZE>()); }
ROT(int8_t, 16)
ROT(int8_t, 32)
ROT(int8_t, 1)
ROT(int8_t, 8)
ROT(int16_t, 8)
ROT(int16_t, 16)
ROT(int32_t, 8)
ROT(uint8_t, 32)
