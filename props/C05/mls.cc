#include "vf.hh"
#include "mls.hh"

// specification: a Galois feedback shift register over the polynomial of degree DEG,
// held in 64 bits so that nothing can overflow
struct Spec {
	uint64_t poly, reg;
	int deg;
	bool operator()()
	{
		bool fb = (reg >> (deg - 1)) & 1;
		reg <<= 1;
		if (fb)
			reg ^= poly;
		return fb;
	}
};
static int any_poly(int &deg, int lo = 1, int hi = 30)
{
	deg = lo + vf_choose("degree", hi - lo + 1);
	int poly = vf_range<int>("poly", int64_t(1) << deg, (int64_t(2) << deg) - 1);
	return poly;
}
static int any_reg(int deg, const char *name = "reg")
{
	return vf_range<int>(name, 0, (int64_t(1) << deg) - 1);
}
// every polynomial of degree 1..30, every register: the produced bits are those of the shift register
VF_ENTRY(h_bits)
{
	int deg, poly = any_poly(deg), reg = any_reg(deg);
	CODE::MLS mls(poly, reg);
	Spec spec { uint64_t(poly), uint64_t(reg), deg };
	for (int i = 0; i < 4; ++i)
		vf_assert(mls() == spec(), "the sequence is the output of the feedback shift register");
	// class invariant: the object is the one freshly constructed with the current register
	CODE::MLS fresh(poly, int(spec.reg));
	vf_lemma(spec.reg < (uint64_t(1) << deg), "the register stays below the polynomial degree");
	vf_lemma(!std::memcmp(&mls, &fresh, sizeof(mls)), "a step changes nothing but the register");
}
VF_ENTRY(h_reset)
{
	int deg, poly = any_poly(deg), reg = any_reg(deg), r = any_reg(deg, "r");
	CODE::MLS mls(poly, reg);
	mls();
	mls.reset(r);
	Spec spec { uint64_t(poly), uint64_t(r), deg };
	for (int i = 0; i < 3; ++i)
		vf_assert(mls() == spec(), "reset restarts the sequence from the given register");
	mls.reset();
	spec.reg = 1;
	for (int i = 0; i < 32; ++i)
		vf_assert(mls() == spec(), "reset without argument restarts from one");
	CODE::MLS def(poly);
	spec.reg = 1;
	for (int i = 0; i < 32; ++i)
		vf_assert(def() == spec(), "the register starts at one by default");
}
VF_ENTRY(h_default)
{
	CODE::MLS mls;
	Spec spec { (1 << 20) | (1 << 3) | 1, 1, 20 };
	for (int i = 0; i < 64; ++i)
		vf_assert(mls() == spec(), "the default polynomial is x^20+x^3+1");
}
static bool spec_good(int poly, int deg, int r)
{
	Spec s { uint64_t(poly), uint64_t(r), deg };
	int period = 0, len = (1 << deg) - 1;
	do {
		s();
		++period;
	} while (s.reg != uint64_t(r) && period <= len);
	return s.reg == uint64_t(r) && period == len;
}
static void judge(int lo, int hi)
{
	int deg = lo + vf_choose("degree", hi - lo + 1);
	int poly = (1 << deg) + vf_choose("rest", 1 << hi);
	vf_assume(poly < (2 << deg));
	int r = 1 + vf_choose("start", 2);
	vf_assume(r < (1 << deg));
	CODE::MLS mls(poly, 1);
	bool bad = mls.bad(r);
	bool good = spec_good(poly, deg, r);
	vf_cover(good, "good polynomial");
	vf_cover(!good, "bad polynomial");
	vf_assert(bad == !good, "bad() tells exactly whether the sequence has full length");
	if (good) {
		Spec s { uint64_t(poly), uint64_t(r), deg };
		for (int i = 0; i < 2 * deg; ++i)
			vf_assert(mls() == s(), "after a good verdict the register is back at the start");
	}
}
VF_ENTRY(h_bad) { judge(2, 6); }
VF_BOUNDED(b_bad) {
	int deg = vf_range<int>("deg", 2, 12);
	int poly = vf_range<int>("poly", 1 << deg, (2 << deg) - 1);
	int r = vf_range<int>("r", 1, (1 << deg) - 1);
	CODE::MLS mls(poly);
	bool bad = mls.bad(r);
	vf_assert(bad == !spec_good(poly, deg, r), "bad() tells exactly whether the sequence has full length");
}
VF_BOUNDED(b_primitive) {
	// one known primitive polynomial per degree: full period, and balance of ones and zeros
	static const int prim[] = { 0b111, 0b1011, 0b10011, 0b100101, 0b1000011, 0b10001001, 0b100011101, 0b1000010001, 0b10000001001, 0b100000000101, 0b1000001010011, 0b10000000011011, 0b100010001000011, 0b1000000000000011, 0b10001000000001011, 0b100000000000001001, 0b1000000000010000001, 0b10000000000000100111, 0b100000000000000001001 };
	int k = vf_choose("k", 19), deg = k + 2;
	int r = vf_range<int>("r", 1, (1 << deg) - 1);
	CODE::MLS mls(prim[k], r);
	vf_assert(!mls.bad(r), "a primitive polynomial gives a full length sequence");
	int ones = 0;
	for (int i = 0; i < (1 << deg) - 1; ++i)
		ones += mls();
	vf_assert(ones == 1 << (deg - 1), "a full length sequence has one more one than zeros");
}
