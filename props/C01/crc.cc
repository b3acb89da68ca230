#include "vf.hh"
#include "crc.hh"

// specification: one step of a reflected CRC register, written from the definition
template <typename T>
static T spec_bit(T reg, T poly, bool bit)
{
	bool out = (reg & 1) != bit;
	reg = reg >> 1;
	return out ? T(reg ^ poly) : reg;
}
template <typename T>
static T spec_bits(T reg, T poly, uint64_t data, int n)
{
	for (int i = 0; i < n; ++i)
		reg = spec_bit<T>(reg, poly, (data >> i) & 1);
	return reg;
}


// one byte-wide feed, any polynomial, any register, any byte
template <typename T>
static void byte_op()
{
	T poly = vf_any<T>("poly");
	T reg = vf_any<T>("reg");
	uint8_t data = vf_any<uint8_t>("data");
	int k = vf_choose("index", 256);
	vf_assume(((reg ^ data) & 255) == k);
	CODE::CRC<T> crc(poly, reg);
	T got = crc(data);
	T want = spec_bits<T>(reg, poly, data, 8);
	vf_cover(true, "byte fed");
	vf_assert(got == want, "byte feed equals eight bit feeds");
	vf_assert(crc() == want, "the register read back is the one returned");
}
VF_ENTRY(h_byte8) { byte_op<uint8_t>(); }
VF_ENTRY(h_byte16) { byte_op<uint16_t>(); }
VF_ENTRY(h_byte32) { byte_op<uint32_t>(); }
VF_ENTRY(h_byte64) { byte_op<uint64_t>(); }

// one bit feed, reset and construction
template <typename T>
static void bit_op()
{
	T poly = vf_any<T>("poly");
	T reg = vf_any<T>("reg");
	T reg2 = vf_any<T>("reg2");
	bool data = vf_any<bool>("data");
	CODE::CRC<T> crc(poly, reg);
	vf_assert(crc() == reg, "the constructor sets the register");
	T want = spec_bit<T>(reg, poly, data);
	T got = crc(data);
	vf_assert(got == want, "bit feed is one register step");
	vf_assert(crc() == want, "the register read back is the one returned");
	crc.reset(reg2);
	vf_assert(crc() == reg2, "reset sets the register");
	crc.reset();
	vf_assert(crc() == 0, "reset without argument clears the register");
	CODE::CRC<T> zero(poly);
	vf_assert(zero() == 0, "the register starts at zero by default");
}
VF_ENTRY(h_bit8) { bit_op<uint8_t>(); }
VF_ENTRY(h_bit16) { bit_op<uint16_t>(); }
VF_ENTRY(h_bit32) { bit_op<uint32_t>(); }
VF_ENTRY(h_bit64) { bit_op<uint64_t>(); }

// class invariant: an object is at every moment indistinguishable from a freshly
// constructed one with the same polynomial and the current register value, so the
// single-step contracts above extend by induction to every history of calls
template <typename T>
static bool same(const CODE::CRC<T> &a, const CODE::CRC<T> &b)
{
	return !std::memcmp(&a, &b, sizeof(a));
}
template <typename T>
static void frame_op(int op, T poly)
{
	T reg = vf_any<T>("reg");
	CODE::CRC<T> crc(poly, reg);
	T now = 0;
	switch (op) {
	case 0: now = crc(vf_any<bool>("bit")); break;
	case 1: now = crc(vf_any<uint8_t>("byte")); break;
	case 2: now = crc(vf_any<uint16_t>("half")); break;
	case 3: now = crc(vf_any<uint32_t>("word")); break;
	case 4: now = crc(vf_any<uint64_t>("quad")); break;
	case 5: crc.reset(now = vf_any<T>("r")); break;
	default: now = crc(); break;
	}
	CODE::CRC<T> fresh(poly, now);
	vf_assert(crc() == now, "the register read back is the one returned");
	vf_lemma(same(crc, fresh), "no operation changes anything but the register");
}
VF_ENTRY(h_frame8) { frame_op<uint8_t>(vf_choose("op", 7), 0x8C); }
VF_ENTRY(h_frame16) { frame_op<uint16_t>(vf_choose("op", 7), 0xA001); }
VF_ENTRY(h_frame32) { frame_op<uint32_t>(vf_choose("op", 7), 0xEDB88320); }
VF_ENTRY(h_frame64) { frame_op<uint64_t>(vf_choose("op", 7), 0xD800000000000000); }

// wider feeds are their bytes in little-endian order; polynomials in use, all registers and data
template <typename T>
static void wide_op(T poly)
{
	int n = 2 << vf_choose("size", 3);
	T reg = vf_any<T>("reg");
	uint64_t data = vf_any<uint64_t>("data");
	CODE::CRC<T> crc(poly, reg);
	T got = n == 2 ? crc(uint16_t(data)) : n == 4 ? crc(uint32_t(data)) : crc(data);
	vf_cover(true, "wide feed");
	vf_assert(got == spec_bits<T>(reg, poly, data, 8 * n), "wide feed equals its bits, least significant first");
	vf_assert(crc() == got, "the register read back is the one returned");
}
#define WIDE(N, T, P) VF_ENTRY(N) { wide_op<T>(P); }
WIDE(h_wide8a, uint8_t, 0x8C)
WIDE(h_wide8b, uint8_t, 0xE0)
WIDE(h_wide16a, uint16_t, 0xA001)
WIDE(h_wide16b, uint16_t, 0xA8F4)
WIDE(h_wide32a, uint32_t, 0xEDB88320)
WIDE(h_wide32b, uint32_t, 0x8F6E37A0)
WIDE(h_wide64a, uint64_t, 0xD800000000000000)
WIDE(h_wide64b, uint64_t, 0xC96C5795D7870F42)

// bounded: random histories with random polynomials
template <typename T>
static void history()
{
	T poly = vf_any<T>("poly"), reg = vf_any<T>("reg");
	CODE::CRC<T> crc(poly, reg);
	int n = vf_range<int>("n", 1, 40);
	for (int i = 0; i < n; ++i) {
		uint64_t d = vf_any<uint64_t>("d", i);
		T got;
		switch (vf_range<int>("op", 0, 5, i)) {
		case 0: got = crc(bool(d & 1)); reg = spec_bits<T>(reg, poly, d, 1); break;
		case 1: got = crc(uint8_t(d)); reg = spec_bits<T>(reg, poly, d, 8); break;
		case 2: got = crc(uint16_t(d)); reg = spec_bits<T>(reg, poly, d, 16); break;
		case 3: got = crc(uint32_t(d)); reg = spec_bits<T>(reg, poly, d, 32); break;
		case 4: got = crc(d); reg = spec_bits<T>(reg, poly, d, 64); break;
		default: crc.reset(d); got = reg = d; break;
		}
		vf_assert(got == reg && crc() == reg, "history of feeds equals the bitwise definition");
	}
}
VF_BOUNDED(b_history8) { history<uint8_t>(); }
VF_BOUNDED(b_history16) { history<uint16_t>(); }
VF_BOUNDED(b_history32) { history<uint32_t>(); }
VF_BOUNDED(b_history64) { history<uint64_t>(); }
