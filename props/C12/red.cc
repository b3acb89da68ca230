#include "vf.hh"
#include "exclusive_reduce.hh"

// Sums of independent unknowns are a free commutative monoid: what holds for them
// holds for every associative and commutative operation.
static void sums(int n)
{
	uint64_t *in = new uint64_t[n], *orig = new uint64_t[n], *out = new uint64_t[n];
	for (int i = 0; i < n; ++i) {
		in[i] = orig[i] = vf_any<uint64_t>("in", i);
		out[i] = vf_any<uint64_t>("stale", i);
	}
	CODE::exclusive_reduce(in, out, n, [](uint64_t a, uint64_t b) { return a + b; });
	for (int i = 0; i < n; ++i) {
		uint64_t sum = 0;
		for (int j = 0; j < n; ++j)
			if (i != j)
				sum += orig[j];
		vf_assert(out[i] == sum, "each output combines every input but its own");
		vf_assert(in[i] == orig[i], "the inputs are left alone");
	}
	delete[] in;
	delete[] orig;
	delete[] out;
}
VF_ENTRY(h_sums) { sums(2 + vf_choose("length", 63)); }
VF_ENTRY(h_sums_long) { sums(vf_choose("long", 2) ? 255 : 400); }
template <typename T, typename OP>
static void plain(int n, OP op)
{
	T *in = new T[n], *out = new T[n];
	for (int i = 0; i < n; ++i) {
		in[i] = vf_any<T>("in", i);
		out[i] = vf_any<T>("stale", i);
	}
	CODE::exclusive_reduce(in, out, n, op);
	for (int i = 0; i < n; ++i) {
		bool first = true;
		T acc = 0;
		for (int j = 0; j < n; ++j)
			if (i != j) {
				acc = first ? in[j] : op(acc, in[j]);
				first = false;
			}
		vf_assert(out[i] == acc, "each output combines every input but its own");
	}
	delete[] in;
	delete[] out;
}
VF_ENTRY(h_minimum) { plain<uint8_t>(2 + vf_choose("length", 5), [](uint8_t a, uint8_t b) { return std::min(a, b); }); }
VF_ENTRY(h_parity) { plain<uint32_t>(2 + vf_choose("length", 31), [](uint32_t a, uint32_t b) { return a ^ b; }); }
VF_ENTRY(h_product) { plain<int8_t>(2 + vf_choose("length", 2), [](int8_t a, int8_t b) { return (int8_t)(a * b); }); }
