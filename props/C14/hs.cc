#include "vf.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"

static int dot(int x)
{
	int p = 0;
	for (; x; x >>= 1)
		p ^= x & 1;
	return p;
}
// The augmented Hadamard code word of a message: bit i is the inner product of the
// message and i, plus the top message bit.
template <int K>
struct Hada {
	static const int N = 1 << (K - 1), W = 1 << K, SEARCH = N;
	typedef CODE::HadamardEncoder<K> Enc;
	typedef CODE::HadamardDecoder<K> Dec;
	static int bit(int msg, int i) { return dot(msg & (i | N)); }
	static const int DIST = N / 2;
};
template <int K>
struct Simp {
	static const int N = (1 << K) - 1, W = 1 << K, SEARCH = W;
	typedef CODE::SimplexEncoder<K> Enc;
	typedef CODE::SimplexDecoder<K> Dec;
	static int bit(int msg, int i) { return dot(msg & (i + 1)); }
	static const int DIST = 1 << (K - 1);
};
template <typename C>
static void encoding()
{
	typename C::Enc *encode = new typename C::Enc;
	int8_t *code = new int8_t[C::N], *other = new int8_t[C::N];
	int msg = vf_range<int>("message", 0, C::W - 1);
	for (int i = 0; i < C::N; ++i)
		code[i] = vf_any<int8_t>("stale", i);
	(*encode)(code, msg);
	bool ok = true;
	for (int i = 0; i < C::N; ++i)
		ok = ok & (code[i] == 1 - 2 * C::bit(msg, i));
	vf_assert(ok, "every position carries the inner product of message and position");
	delete encode;
	delete[] code;
	delete[] other;
}
template <typename C>
static void decoding(int limit)
{
	typename C::Dec decode;
	int8_t code[C::N];
	vf_fill_range(code, C::N, "soft", -limit, limit < 127 ? limit : 127);
	int word = decode(code);
	int sum[C::W];
	for (int m = 0; m < C::W; ++m) {
		sum[m] = 0;
		for (int i = 0; i < C::N; ++i)
			sum[m] += (1 - 2 * C::bit(m, i)) * code[i];
	}
	bool any = false, positive = false, zero = true;
	for (int m = 0; m < C::W; ++m) {
		positive = positive | (sum[m] > 0);
		zero = zero & (sum[m] == 0);
	}
	vf_lemma(positive | zero, "the matches of all messages cancel");
	for (int m = 0; m < C::W; ++m) {
		bool first = true;
		for (int o = 0; o < C::W; ++o)
			if (o != m)
				first = first & (sum[o] < sum[m]);
		any = any | first;
		vf_assert(first == (word == m), "a message is returned exactly when its code word matches better than all others");
	}
	vf_assert(any | (word == -1), "-1 is returned for a tie");
}
#define BOTH(K) \
VF_ENTRY(h_hadamard_encoder_##K) { encoding<Hada<K>>(); } \
VF_ENTRY(h_simplex_encoder_##K) { encoding<Simp<K>>(); }
BOTH(2)
BOTH(3)
BOTH(4)
BOTH(5)
BOTH(6)
BOTH(7)

// The reference search over any number of matches: best, second best and the message
// of the best.  Its invariant is proved for one arbitrary step (h_search_step), so it
// holds for any number of messages; what the decoders return is then compared with
// the reference search over the inner products of the code words with the input.
struct Search {
	int best = 0, next = 0, word = 0;
	void step(int mag, int msg)
	{
		if (mag > best) {
			next = best;
			best = mag;
			word = msg;
		} else if (mag > next) {
			next = mag;
		}
	}
	int result() const { return best == next ? -1 : word; }
};
VF_ENTRY(h_search_step)
{
	// an arbitrary reachable state: "seen" is an arbitrary message already looked at,
	// "other" the one that gave the second best
	Search s;
	bool fresh = vf_any<bool>("fresh");
	s.best = fresh ? 0 : vf_range<int>("best", 0, 1 << 20);
	s.next = fresh ? 0 : vf_range<int>("next", 0, 1 << 20);
	s.word = fresh ? 0 : vf_range<int>("word", 0, 1 << 20);
	int k = vf_range<int>("messages so far", 0, 1 << 20), other = vf_range<int>("other", 0, 1 << 20);
	int seen = vf_range<int>("seen", 0, 1 << 20), value = vf_range<int>("value of seen", -(1 << 20), 1 << 20);
	int word_value = vf_range<int>("value of word", -(1 << 20), 1 << 20), other_value = vf_range<int>("value of other", -(1 << 20), 1 << 20);
	auto same = [](int a, int va, int b, int vb) { return a != b || va == vb; };
	auto inv = [&]() {
		bool ok = 0 <= s.next && s.next <= s.best;
		ok = ok & (seen >= k || (value <= s.best && (seen == s.word || value <= s.next)));
		ok = ok & (s.best == 0 || (s.word < k && word_value == s.best));
		ok = ok & (s.next == 0 || (other < k && other != s.word && other_value == s.next));
		return ok & (s.best != 0 || k == 0 || seen >= k || value <= 0);
	};
	vf_assume(same(seen, value, s.word, word_value) && same(seen, value, other, other_value) && same(s.word, word_value, other, other_value));
	if (fresh)
		vf_assume(k == 0);
	vf_lemma(!fresh | inv(), "the search starts in an invariant state");
	vf_assume(inv());
	int mag = vf_range<int>("next value", -(1 << 20), 1 << 20);
	vf_assume(same(seen, value, k, mag));
	int best = s.best, next = s.next, word = s.word;
	s.step(mag, k);
	// ghost updates
	if (mag > best) {
		other = word;
		other_value = word_value;
		word_value = mag;
	} else if (mag > next) {
		other = k;
		other_value = mag;
	}
	k += 1;
	vf_assert(inv(), "the invariant of the search is kept");
	if (s.result() >= 0)
		vf_assert(s.word < k && word_value == s.best && (seen >= k || seen == s.word || value < word_value), "the result is better than every other message");
	else
		vf_assert(s.best == 0 ? (seen >= k || value <= 0) : (other < k && other != s.word && other_value == s.best && (seen >= k || value <= s.best)), "no result means a tie");
}
template <typename C>
static void searching()
{
	typename C::Dec decode;
	int8_t code[C::N];
	vf_fill(code, C::N, "soft");
	int word = decode(code);
	Search s;
	int total = 0;
	for (int m = 0; m < C::SEARCH; ++m) {
		int sum = 0;
		for (int i = 0; i < C::N; ++i)
			sum += (1 - 2 * C::bit(m, i)) * code[i];
		total += sum;
		if (C::SEARCH < C::W)
			s.step(std::abs(sum), m + C::SEARCH * (sum < 0));
		else
			s.step(sum, m);
	}
	vf_assert(word == s.result(), "the decoder returns the best matching message, or -1 for a tie");
	if (C::SEARCH == C::W)
		vf_assert(total == 0, "the matches of all messages cancel, so none is left out at zero");
}
VF_ENTRY(h_hadamard_decoder_2) { decoding<Hada<2>>(128); }
VF_ENTRY(h_hadamard_decoder_3) { decoding<Hada<3>>(128); }
VF_ENTRY(h_hadamard_decoder_4) { decoding<Hada<4>>(128); }
VF_ENTRY(h_hadamard_search_2) { searching<Hada<2>>(); }
VF_ENTRY(h_hadamard_search_3) { searching<Hada<3>>(); }
VF_ENTRY(h_hadamard_search_4) { searching<Hada<4>>(); }
VF_ENTRY(h_hadamard_search_5) { searching<Hada<5>>(); }
VF_ENTRY(h_hadamard_search_6) { searching<Hada<6>>(); }
VF_ENTRY(h_hadamard_search_7) { searching<Hada<7>>(); }
VF_ENTRY(h_simplex_decoder_2) { decoding<Simp<2>>(128); }
VF_ENTRY(h_simplex_decoder_3) { decoding<Simp<3>>(128); }
VF_ENTRY(h_simplex_search_2) { searching<Simp<2>>(); }
VF_ENTRY(h_simplex_search_3) { searching<Simp<3>>(); }
VF_ENTRY(h_simplex_search_4) { searching<Simp<4>>(); }
VF_ENTRY(h_simplex_search_5) { searching<Simp<5>>(); }
VF_ENTRY(h_simplex_search_6) { searching<Simp<6>>(); }
VF_ENTRY(h_simplex_search_7) { searching<Simp<7>>(); }
