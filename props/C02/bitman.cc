#include "vf.hh"
#include "bitman.hh"

// The byte holding bit `pos` is placed inside a small window; the array base is
// that window minus pos/8, so the contract covers every non-negative position.
static const int W = 7, MID = 3;

template <typename F>
static void modify(F op, bool be, int kind)
{
	uint8_t win[W], old[W];
	vf_fill(win, W, "byte");
	int pos = vf_range<int>("pos", 0, INT_MAX);
	bool val = vf_any<bool>("val");
	for (int i = 0; i < W; ++i)
		old[i] = win[i];
	uint8_t *buf = win + MID - pos / 8;
	op(buf, pos, val);
	int where = be ? 7 - pos % 8 : pos % 8;
	uint8_t bit = 1 << where;
	uint8_t want = old[MID];
	if (kind == 0)
		want = val ? want | bit : want & ~bit;
	else
		want = val ? want ^ bit : want;
	vf_assert(win[MID] == want, "exactly the addressed bit changes, to the required value");
	for (int i = 0; i < W; ++i)
		if (i != MID)
			vf_assert(win[i] == old[i], "no other byte changes");
}
template <typename F>
static void read(F op, bool be)
{
	uint8_t win[W], old[W];
	vf_fill(win, W, "byte");
	int pos = vf_range<int>("pos", 0, INT_MAX);
	for (int i = 0; i < W; ++i)
		old[i] = win[i];
	const uint8_t *buf = win + MID - pos / 8;
	bool got = op(buf, pos);
	int where = be ? 7 - pos % 8 : pos % 8;
	vf_assert(got == ((old[MID] >> where) & 1), "the addressed bit is returned");
	for (int i = 0; i < W; ++i)
		vf_assert(win[i] == old[i], "reading changes nothing");
}
VF_ENTRY(h_set_be) { modify(CODE::set_be_bit, true, 0); }
VF_ENTRY(h_set_le) { modify(CODE::set_le_bit, false, 0); }
VF_ENTRY(h_xor_be) { modify(CODE::xor_be_bit, true, 1); }
VF_ENTRY(h_xor_le) { modify(CODE::xor_le_bit, false, 1); }
VF_ENTRY(h_get_be) { read(CODE::get_be_bit, true); }
VF_ENTRY(h_get_le) { read(CODE::get_le_bit, false); }

// two operations at any two positions of one array
VF_ENTRY(h_set_get)
{
	const int B = 6;
	uint8_t buf[B];
	vf_fill(buf, B, "byte");
	int p = vf_range<int>("p", 0, 8 * B - 1), q = vf_range<int>("q", 0, 8 * B - 1);
	bool v = vf_any<bool>("v");
	bool be = vf_choose("be", 2);
	bool x = vf_choose("xor", 2);
	bool before = be ? CODE::get_be_bit(buf, q) : CODE::get_le_bit(buf, q);
	if (x)
		be ? CODE::xor_be_bit(buf, p, v) : CODE::xor_le_bit(buf, p, v);
	else
		be ? CODE::set_be_bit(buf, p, v) : CODE::set_le_bit(buf, p, v);
	bool after = be ? CODE::get_be_bit(buf, q) : CODE::get_le_bit(buf, q);
	vf_cover(p == q, "same position");
	vf_cover(p != q, "different positions");
	vf_assert(after == (p == q ? (x ? before ^ v : v) : before), "a bit written is read back and every other bit is kept");
}
