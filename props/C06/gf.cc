#include "vf.hh"
#include "galois_field.hh"

// specification: carry-less product reduced by the field polynomial
static uint64_t spec_mul(uint64_t a, uint64_t b, int m, uint64_t poly)
{
	uint64_t r = 0;
	for (int i = m - 1; i >= 0; --i) {
		r <<= 1;
		if ((r >> m) & 1)
			r ^= poly;
		if ((b >> i) & 1)
			r ^= a;
	}
	return r;
}

template <int M, int POLY, typename T>
struct Field {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	static const int Q = 1 << M, N = Q - 1;
	static V val(const char *n, int lo = 0) { return V(vf_range<int>(n, lo, N)); }
	static I idx(const char *n) { return I(vf_range<int>(n, 0, N - 1)); }
	static T mul(T a, T b) { return spec_mul(a, b, M, POLY); }
	static void values()
	{
		GF instance;
		V a = val("a"), b = val("b"), c = val("c");
		T p = mul(a.v, b.v);
		vf_assert((a * b).v == p, "product of values");
		vf_assert(fma(a, b, c).v == (p ^ c.v), "fused multiply-add of values");
		V d(a);
		d *= b;
		vf_assert(d.v == p, "compound product of values");
		if (b.v) {
			vf_assert(mul((a / b).v, b.v) == a.v, "quotient of values");
			vf_assert(mul(rcp(b).v, b.v) == 1, "reciprocal of a value");
		}
	}
	static void sums()
	{
		V a = val("a"), b = val("b");
		vf_assert((a + b).v == (a.v ^ b.v), "sum of values");
		vf_assert((a - b).v == (a.v ^ b.v), "difference of values");
		vf_assert((-a).v == a.v, "negation of a value");
		V d(a);
		d += b;
		vf_assert(d.v == (a.v ^ b.v), "compound sum of values");
		vf_assert((a == b) == (a.v == b.v), "equality of values");
		vf_assert((a != b) == (a.v != b.v), "inequality of values");
		vf_assert(bool(a) == (a.v != 0) && int(a) == a.v && V::zero().v == 0, "conversions");
	}
	static void indices()
	{
		GF instance;
		I i = idx("i"), j = idx("j");
		int s = int(i.i) + j.i, t = int(i.i) - j.i;
		vf_assert((i * j).i == (s >= N ? s - N : s), "indices add modulo the group order");
		vf_assert((i / j).i == (t < 0 ? t + N : t), "indices subtract modulo the group order");
		vf_assert(rcp(i).i == (i.i ? N - i.i : 0), "reciprocal negates the index");
		I k(i), l(i);
		k *= j;
		l /= j;
		vf_assert(k.i == (s >= N ? s - N : s) && l.i == (t < 0 ? t + N : t), "compound operations on indices");
		vf_assert(int(i) == i.i && I::modulus() == N, "conversions");
	}
	// the tables: powers of the generator x, logarithm its inverse
	static void powers()
	{
		GF instance;
		T a = 1;
		for (int i = 0; i < N; ++i) {
			V v = value(I(i));
			vf_assert(v.v == a, "value of an index is that power of the generator");
			vf_assert(index(v).i == i, "index of a value is its logarithm");
			a = mul(a, 2);
		}
		vf_assert(a == 1, "the generator has full order");
	}
	// operations with an index operand go through the corresponding value
	static void mixed()
	{
		GF instance;
		V a = val("a"), c = val("c");
		I i = idx("i"), j = idx("j");
		V x = value(i), y = value(j);
		vf_assert((a * i).v == (a * x).v, "value times index");
		vf_assert((i * a).v == (a * x).v, "index times value");
		vf_assert(value(i * j).v == (x * y).v, "product of indices");
		V d(a);
		d *= i;
		vf_assert(d.v == (a * x).v, "compound product with an index");
		vf_assert((a / i).v == (a / x).v, "value over index");
		vf_assert(fma(i, j, c).v == ((x * y) + c).v, "fma(index, index, value)");
		vf_assert(fma(i, a, c).v == ((x * a) + c).v, "fma(index, value, value)");
		vf_assert(fma(a, i, c).v == ((a * x) + c).v, "fma(value, index, value)");
		if (a.v)
			vf_assert((i / a).v == (x / a).v, "index over value");
	}
	// for large fields the product of values is reduced to the index contract
	static void product()
	{
		GF instance;
		V a = val("a", 1), b = val("b", 1), c = val("c");
		V z(0);
		int i = index(a).i, j = index(b).i;
		int s = i + j, t = i - j;
		T p = value(I(s >= N ? s - N : s)).v;
		vf_assert((a * b).v == p, "the product adds logarithms");
		vf_assert((a * z).v == 0 && (z * a).v == 0 && (z * z).v == 0 && (z / a).v == 0, "zero annihilates");
		vf_assert((a / b).v == value(I(t < 0 ? t + N : t)).v, "the quotient subtracts logarithms");
		vf_assert(rcp(a).v == value(I(i ? N - i : 0)).v, "the reciprocal negates the logarithm");
		vf_assert(fma(a, b, c).v == (p ^ c.v) && fma(z, b, c).v == c.v && fma(a, z, c).v == c.v, "fused multiply-add of values");
	}
	// the two lemmas that turn "powers" and "product" into the product specification:
	// multiplying by x commutes with multiplication, and 1 is neutral
	static void lemma()
	{
		T a = vf_range<int>("a", 0, N), b = vf_range<int>("b", 0, N);
		vf_lemma(mul(a, mul(b, 2)) == mul(mul(a, b), 2), "multiplying by x commutes with multiplication");
		vf_lemma(mul(a, 1) == a && mul(1, a) == a, "one is neutral");
		vf_lemma(mul(a, b) == mul(b, a), "multiplication commutes");
	}
	static void all()
	{
		switch (vf_choose("part", 6)) {
		case 0: values(); break;
		case 1: sums(); break;
		case 2: indices(); break;
		case 3: powers(); break;
		case 4: product(); break;
		case 5: lemma(); break;
		}
	}
	static void large()
	{
		switch (vf_choose("part", 5)) {
		case 0: sums(); break;
		case 1: indices(); break;
		case 2: powers(); break;
		case 3: product(); break;
		case 4: lemma(); break;
		}
	}
};
typedef Field<2, 0b111, uint8_t> F2;
typedef Field<3, 0b1011, uint8_t> F3;
typedef Field<4, 0b10011, uint8_t> F4;
typedef Field<5, 0b100101, uint8_t> F5;
typedef Field<6, 0b1000011, uint8_t> F6;
typedef Field<7, 0b10001001, uint8_t> F7;
typedef Field<8, 0b100011101, uint8_t> F8;
typedef Field<8, 0b101110001, uint8_t> F8r;
typedef Field<8, 0b100101011, uint16_t> F8w;
typedef Field<10, 0b10000001001, uint16_t> F10;
typedef Field<12, 0b1000001010011, uint16_t> F12;
typedef Field<16, 0b10001000000001011, uint16_t> F16;
VF_ENTRY(h_gf2) { F2::all(); }
VF_ENTRY(h_gf3) { F3::all(); }
VF_ENTRY(h_gf4) { F4::all(); }
VF_ENTRY(h_gf5) { F5::all(); }
VF_ENTRY(h_gf6) { F6::all(); }
VF_ENTRY(h_gf7) { F7::all(); }
VF_ENTRY(h_gf8) { F8::all(); }
VF_ENTRY(h_gf8r) { F8r::all(); }
VF_ENTRY(h_gf8w) { F8w::all(); }
VF_ENTRY(h_gf10) { F10::large(); }
VF_ENTRY(h_gf12) { F12::large(); }
VF_ENTRY(h_gf16) { F16::large(); }
VF_ENTRY(h_mixed2) { F2::mixed(); }
VF_ENTRY(h_mixed3) { F3::mixed(); }
VF_ENTRY(h_mixed4) { F4::mixed(); }
VF_ENTRY(h_mixed8) { F8::mixed(); }
VF_ENTRY(h_mixed16) { F16::mixed(); }

// the table-free reference arithmetic
template <int M, int64_t POLY, typename T>
struct Ref {
	typedef CODE::GaloisFieldReference<M, POLY, T> G;
	static const uint64_t N = (uint64_t(1) << M) - 1;
	static G any(const char *n) { return G(vf_range<T>(n, 0, N)); }
	static void ops()
	{
		G a = any("a"), b = any("b");
		vf_assert((a * b).v == spec_mul(a.v, b.v, M, POLY), "reference product");
		vf_assert((a + b).v == (a.v ^ b.v) && (a - b).v == (a.v ^ b.v) && (-a).v == a.v, "reference sum, difference and negation");
		vf_assert((a == b) == (a.v == b.v) && (a != b) == (a.v != b.v), "reference comparison");
		G c(a), d(a);
		c *= b;
		d += b;
		vf_assert(c.v == spec_mul(a.v, b.v, M, POLY) && d.v == (a.v ^ b.v), "reference compound operations");
	}
	static void inverse(uint64_t from, uint64_t to)
	{
		for (uint64_t i = from; i <= to; ++i) {
			G a(i);
			vf_assert(spec_mul(rcp(a).v, i, M, POLY) == 1, "reference reciprocal");
			G b(1 + (i * 7919) % N);
			vf_assert(spec_mul((a / b).v, b.v, M, POLY) == i, "reference quotient");
		}
	}
};
typedef Ref<2, 0b111, uint8_t> R2;
typedef Ref<4, 0b10011, uint8_t> R4;
typedef Ref<8, 0b100011101, uint8_t> R8;
typedef Ref<8, 0b100011101, uint16_t> R8w;
typedef Ref<10, 0b10000001001, uint16_t> R10;
typedef Ref<16, 0b10001000000001011, uint16_t> R16;
typedef Ref<24, 0b1000000000000000010000111, uint32_t> R24;
typedef Ref<32, 0b100000000010000000000000000000111, uint32_t> R32;
VF_ENTRY(h_ref2) { R2::ops(); R2::inverse(1, 3); }
VF_ENTRY(h_ref4) { R4::ops(); R4::inverse(1, 15); }
VF_ENTRY(h_ref8) { R8::ops(); R8::inverse(1, 255); }
VF_ENTRY(h_ref8w) { R8w::ops(); R8w::inverse(1, 255); }
VF_ENTRY(h_ref10) { R10::ops(); R10::inverse(1, 1023); }
VF_ENTRY(h_ref16) { R16::ops(); }
VF_ENTRY(h_ref24) { R24::ops(); }
VF_ENTRY(h_ref32) { R32::ops(); }
VF_ENTRY(h_refinv16) { int k = vf_choose("block", 16); R16::inverse(k ? k * 4096 : 1, k * 4096 + 4095); }
template <typename R, typename G>
static void inv()
{
	G a(vf_range<uint32_t>("a", 1, R::N)), b(vf_range<uint32_t>("b", 1, R::N));
	vf_assert((rcp(a) * a).v == 1, "reference reciprocal");
	vf_assert(((a / b) * b).v == a.v, "reference quotient");
}
VF_BOUNDED(b_refinv24) { inv<R24, R24::G>(); }
VF_BOUNDED(b_refinv32) { inv<R32, R32::G>(); }
VF_BOUNDED(b_product16)
{
	static F16::GF instance;
	uint16_t a = vf_any<uint16_t>("a"), b = vf_any<uint16_t>("b");
	vf_assert((F16::V(a) * F16::V(b)).v == F16::mul(a, b), "product of values");
}
