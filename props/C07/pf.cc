#include "vf.hh"
#include "prime_field.hh"

template <typename T, T P>
struct Ops {
	typedef CODE::PrimeField<T, P> F;
	static F any(const char *n, T lo = 0) { return F(vf_range<T>(n, lo, P - 1)); }
	static void sums()
	{
		F a = any("a"), b = any("b");
		T s = a.v + b.v;
		T d = a.v >= b.v ? a.v - b.v : a.v + P - b.v;
		T n = a.v ? P - a.v : 0;
		s = s >= P ? s - P : s;
		vf_assert((a + b).v == s, "sum");
		vf_assert((a - b).v == d, "difference");
		vf_assert((-a).v == n, "negation");
		vf_assert(a() == a.v && (a == b) == (a.v == b.v) && (a != b) == (a.v != b.v), "comparison");
		vf_assert((a == F(b)) != (a != b), "equality and inequality exclude each other");
		F c(a), e(a);
		c += b;
		e -= b;
		vf_assert(c.v == s, "compound sum");
		vf_assert(e.v == d, "compound difference");
		vf_assert(add(a, b).v == a.v + b.v, "the deferred sum is the integer sum");
		vf_assert(sub(a, b).v == d, "the deferred difference is reduced already");
		vf_assert(neg(a).v == P - a.v, "the deferred negation");
		vf_assert(((a - b) + b).v == a.v, "difference undoes sum");
	}
	static void products()
	{
		F a = any("a"), b = any("b");
		uint64_t p = uint64_t(a.v) * b.v % P;
		vf_assert((a * b).v == p, "product");
		F c(a);
		c *= b;
		vf_assert(c.v == p, "compound product");
		vf_assert(mul(a, b).v == uint64_t(a.v) * b.v, "the deferred product is the integer product");
		F r(vf_any<T>("r"));
		vf_assert(reduce(r).v == r.v % P && reduce(r).v < P, "reduction");
	}
	// every nonzero element has an inverse, and division multiplies by it
	static void inverses(T from, T to)
	{
		F b = any("b");
		for (T i = from; i < to; ++i) {
			F a(i), r = rcp(a);
			vf_assert(r.v < P && uint64_t(r.v) * i % P == 1, "reciprocal");
		}
	}
	static void quotients()
	{
		F a = any("a"), b = any("b", 1);
		F q = a / b;
		vf_assert(q.v < P && uint64_t(q.v) * b.v % P == a.v, "quotient");
		F c(a);
		c /= b;
		vf_assert(c.v == q.v, "compound quotient");
	}
	// the quotient is the product with the reciprocal
	static void quotient(T from, T to)
	{
		F a = any("a");
		for (T i = from; i < to; ++i) {
			F b(i);
			uint64_t r = rcp(b).v;
			vf_assert((a / b).v == a.v * r % P, "quotient is the product with the reciprocal");
		}
	}
	static void powers()
	{
		F a = any("a");
		uint64_t p = 1;
		for (T m = 0; m < 40; ++m) {
			vf_assert(pow(a, m).v == p, "power");
			p = p * a.v % P;
		}
	}
	static void power(T a)
	{
		uint64_t p = 1;
		for (T m = 0; m < 2 * P && m < 1000; ++m) {
			vf_assert(pow(F(a), m).v == p, "power");
			p = p * a % P;
		}
	}
	static void all()
	{
		switch (vf_choose("part", 6)) {
		case 0: sums(); break;
		case 1: products(); break;
		case 2: inverses(1, P); break;
		case 3: quotients(); break;
		case 4: quotient(1, P); break;
		case 5: for (T i = 0; i < P; i += 1 + P / 32) power(i); break;
		}
	}
};
VF_ENTRY(h_pf2) { if (vf_choose("part", 2)) Ops<uint32_t, 2>::products(); else Ops<uint32_t, 2>::sums(); }
VF_ENTRY(h_pf3) { Ops<uint32_t, 3>::all(); }
VF_ENTRY(h_pf17) { Ops<uint32_t, 17>::all(); }
VF_ENTRY(h_pf251) { Ops<uint32_t, 251>::all(); }
VF_ENTRY(h_pf257) { Ops<uint32_t, 257>::all(); }
VF_ENTRY(h_pf257w) { Ops<uint64_t, 257>::all(); }
VF_ENTRY(h_pf65521) { if (vf_choose("part", 2)) Ops<uint32_t, 65521>::products(); else Ops<uint32_t, 65521>::sums(); }
VF_ENTRY(h_pf65537) { if (vf_choose("part", 2)) Ops<uint64_t, 65537>::products(); else Ops<uint64_t, 65537>::sums(); }
VF_ENTRY(h_pow65537) { Ops<uint64_t, 65537>::power(3); Ops<uint64_t, 65537>::power(65536); Ops<uint64_t, 65537>::power(12345); }
VF_ENTRY(h_rcp65537) { int k = vf_choose("block", 16); Ops<uint64_t, 65537>::inverses(k * 4096 + 1, k * 4096 + 4097); }
VF_ENTRY(h_div65537) { int k = vf_choose("block", 8); Ops<uint64_t, 65537>::quotient(1 + k * 8000, 1 + k * 8000 + 40); }
VF_BOUNDED(b_div65537) { Ops<uint64_t, 65537>::quotients(); }
