#include "vf.hh"
#include "bitstream.hh"

typedef CODE::Bitstream<80> BS;
typedef CODE::Bitstream<147> BL;

template <typename S>
static bool bit_at(S &s, int k)
{
	return (s.data()[k / 8] >> (k % 8)) & 1;
}
template <typename S>
static void any_content(S &s, uint8_t *old)
{
	for (int i = 0; i < S::BYTES; ++i)
		old[i] = s.data()[i] = vf_any<uint8_t>("buf", i);
}
// every byte except the bits [pos, pos+n) is as before, and those bits are `data`
template <typename S, typename D>
static void check_written(S &s, const uint8_t *old, int pos, int n, D data)
{
	for (int k = 0; k < 8 * S::BYTES; ++k) {
		bool was = (old[k / 8] >> (k % 8)) & 1;
		bool want = k >= pos && k < pos + n ? data(k - pos) : was;
		vf_assert(bit_at(s, k) == want, k < S::BITS ? "written bits hold the data and all other bits are kept" : "bits after the last one are kept");
	}
	vf_assert(s.tell() == pos + n, "the position advances by the number of bits");
}
template <typename S>
static void check_read(S &s, const uint8_t *old, int pos, int n)
{
	for (int i = 0; i < S::BYTES; ++i)
		vf_assert(s.data()[i] == old[i], "reading does not change the stream");
	vf_assert(s.tell() == pos + n, "the position advances by the number of bits");
}
// a position with a chosen offset inside its byte
template <typename S>
static int any_pos(int n)
{
	int bit = vf_choose("bit", 8);
	int last = S::BITS - n - bit;
	vf_assume(last >= 0);
	return 8 * vf_range<int>("byte", 0, last / 8) + bit;
}
template <typename S>
static void putbit()
{
	S s;
	uint8_t old[S::BYTES];
	any_content(s, old);
	int pos = any_pos<S>(1);
	s.seek(pos);
	vf_assert(s.tell() == pos, "seek and tell agree");
	bool b = vf_any<bool>("b");
	s.putbit(b);
	check_written(s, old, pos, 1, [=](int){ return b; });
}
template <typename S>
static void getbit()
{
	S s;
	uint8_t old[S::BYTES];
	any_content(s, old);
	int pos = any_pos<S>(1);
	s.seek(pos);
	vf_assert(s.getbit() == bit_at(s, pos), "getbit returns the bit at the position");
	check_read(s, old, pos, 1);
}
template <typename S>
static void putbyte()
{
	S s;
	uint8_t old[S::BYTES];
	any_content(s, old);
	int pos = any_pos<S>(8);
	s.seek(pos);
	uint8_t b = vf_any<uint8_t>("b");
	s.putbyte(b);
	check_written(s, old, pos, 8, [=](int i){ return (b >> i) & 1; });
}
template <typename S>
static void getbyte()
{
	S s;
	uint8_t old[S::BYTES];
	any_content(s, old);
	int pos = any_pos<S>(8);
	s.seek(pos);
	uint8_t b = s.getbyte();
	for (int i = 0; i < 8; ++i)
		vf_assert(((b >> i) & 1) == bit_at(s, pos + i), "getbyte returns the eight bits at the position");
	check_read(s, old, pos, 8);
}
template <typename S>
static void writebytes()
{
	S s;
	uint8_t old[S::BYTES], in[6];
	any_content(s, old);
	int len = vf_choose("len", 6);
	vf_fill(in, 6, "in");
	int pos = any_pos<S>(8 * len);
	s.seek(pos);
	s.writebytes(in, len);
	check_written(s, old, pos, 8 * len, [&](int i){ return (in[i / 8] >> (i % 8)) & 1; });
}
template <typename S>
static void readbytes()
{
	S s;
	uint8_t old[S::BYTES], out[8], keep[8];
	any_content(s, old);
	vf_fill(out, 8, "out");
	for (int i = 0; i < 8; ++i)
		keep[i] = out[i];
	int len = vf_choose("len", 6);
	int pos = any_pos<S>(8 * len);
	s.seek(pos);
	s.readbytes(out + 1, len);
	for (int i = 0; i < 8 * len; ++i)
		vf_assert(((out[1 + i / 8] >> (i % 8)) & 1) == bit_at(s, pos + i), "readbytes returns the bits at the position");
	for (int i = 0; i < 8; ++i)
		if (i < 1 || i > len)
			vf_assert(out[i] == keep[i], "readbytes writes only the requested bytes");
	check_read(s, old, pos, 8 * len);
}
template <typename S, typename T>
static void writebits()
{
	S s;
	uint8_t old[S::BYTES];
	any_content(s, old);
	int num = vf_choose("num", 8 * sizeof(T) + 1);
	T b = vf_any<T>("b");
	int pos = any_pos<S>(num);
	s.seek(pos);
	s.writebits(b, num);
	check_written(s, old, pos, num, [=](int i){ return (b >> i) & 1; });
}
template <typename S, typename T>
static void readbits()
{
	S s;
	uint8_t old[S::BYTES];
	any_content(s, old);
	int num = vf_choose("num", 8 * sizeof(T) + 1);
	T b = vf_any<T>("b");
	int pos = any_pos<S>(num);
	s.seek(pos);
	s.readbits(&b, num);
	for (int i = 0; i < 8 * (int)sizeof(T); ++i)
		vf_assert(((b >> i) & 1) == (i < num ? bit_at(s, pos + i) : 0), "readbits returns the requested bits, zero-extended");
	check_read(s, old, pos, num);
}
VF_ENTRY(h_putbit) { putbit<BS>(); }
VF_ENTRY(h_getbit) { getbit<BS>(); }
VF_ENTRY(h_putbyte) { putbyte<BS>(); }
VF_ENTRY(h_getbyte) { getbyte<BS>(); }
VF_ENTRY(h_writebytes) { writebytes<BS>(); }
VF_ENTRY(h_readbytes) { readbytes<BS>(); }
VF_ENTRY(h_writebits8) { writebits<BS, uint8_t>(); }
VF_ENTRY(h_readbits8) { readbits<BS, uint8_t>(); }
VF_ENTRY(h_writebits16) { writebits<BS, uint16_t>(); }
VF_ENTRY(h_readbits16) { readbits<BS, uint16_t>(); }
VF_ENTRY(h_writebits32) { writebits<BS, uint32_t>(); }
VF_ENTRY(h_readbits32) { readbits<BS, uint32_t>(); }
VF_ENTRY(h_writebits64) { writebits<BS, uint64_t>(); }
VF_ENTRY(h_readbits64) { readbits<BS, uint64_t>(); }

VF_ENTRY(h_reset)
{
	BL s;
	uint8_t old[BL::BYTES];
	any_content(s, old);
	s.seek(vf_range<int>("pos", 0, BL::BITS));
	s.reset();
	vf_assert(s.tell() == 0, "reset rewinds");
	for (int i = 0; i < BL::BYTES; ++i)
		vf_assert(s.data()[i] == 0, "reset clears every byte");
	BL fresh;
	vf_assert(fresh.tell() == 0, "a new stream starts at position zero");
	vf_assert(BL::BITS == 147 && BL::BYTES == 19 && BS::BYTES == 10, "the byte count covers the bits");
}

// bounded: random histories of mixed operations against a bit-array model
VF_BOUNDED(b_history)
{
	BL s;
	bool model[BL::BITS];
	int pos = 0;
	s.reset();
	for (int i = 0; i < BL::BITS; ++i)
		model[i] = 0;
	int n = vf_range<int>("n", 1, 60);
	for (int i = 0; i < n; ++i) {
		int op = vf_range<int>("op", 0, 9, i);
		uint64_t d = vf_any<uint64_t>("d", i);
		int num = op < 2 ? 1 : op < 4 ? 8 : op < 6 ? 8 * vf_range<int>("len", 0, 8, i) : op < 8 ? vf_range<int>("num", 0, 64, i) : 0;
		if (op >= 8 || pos + num > BL::BITS) {
			s.seek(pos = vf_range<int>("seek", 0, BL::BITS, i));
			continue;
		}
		uint8_t by[8];
		for (int j = 0; j < 8; ++j)
			by[j] = d >> (8 * j);
		uint64_t want = 0, got = 0;
		for (int j = 0; j < num; ++j)
			want |= uint64_t(model[pos + j]) << j;
		bool wr = !(op & 1);
		switch (op) {
		case 0: s.putbit(d & 1); break;
		case 1: got = s.getbit(); break;
		case 2: s.putbyte(d); break;
		case 3: got = s.getbyte(); break;
		case 4: s.writebytes(by, num / 8); break;
		case 5: std::memset(by, 0, 8); s.readbytes(by, num / 8); for (int j = 0; j < 8; ++j) got |= uint64_t(by[j]) << (8 * j); break;
		case 6: s.writebits(d, num); break;
		case 7: s.readbits(&got, num); break;
		}
		if (wr)
			for (int j = 0; j < num; ++j)
				model[pos + j] = (d >> j) & 1;
		else
			vf_assert(got == want, "history: reads return what was written");
		pos += num;
		vf_assert(s.tell() == pos, "history: position");
	}
	for (int i = 0; i < BL::BITS; ++i)
		vf_assert(bit_at(s, i) == model[i], "history: content");
}
