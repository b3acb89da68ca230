#include "vf.hh"
#include "simd.hh"
#include "sort.hh"
#include "simd_sort.hh"

// Sorting is decided through positions: every element carries the place it came
// from, so the result is the one stable sorted arrangement exactly when neighbours
// are ordered by key and, for equal keys, by origin, and the origins are distinct.
template <typename K>
struct Item { K key; uint8_t from; };
template <typename K>
static void check(const Item<K> *a, const K *orig, int n)
{
	uint32_t seen = 0;
	for (int i = 0; i < n; ++i) {
		vf_assert(a[i].from < n, "every element was an input");
		vf_assert(a[i].key == orig[a[i].from], "keys and values stay together");
		vf_assert(!((seen >> a[i].from) & 1), "no element is lost or duplicated");
		seen |= (uint32_t)1 << a[i].from;
		if (i) {
			vf_assert(a[i-1].key <= a[i].key, "the result is sorted");
			vf_assert(a[i-1].key != a[i].key || a[i-1].from < a[i].from, "equal elements keep their order");
		}
	}
}
template <typename K>
static void insertion(int n)
{
	Item<K> *a = new Item<K>[n];
	K *orig = new K[n];
	for (int i = 0; i < n; ++i) {
		a[i].key = orig[i] = vf_any<K>("key", i);
		a[i].from = i;
	}
	CODE::insertion_sort(a, n, [](Item<K> x, Item<K> y) { return x.key < y.key; });
	check(a, orig, n);
	delete[] a;
	delete[] orig;
}
template <typename K, typename P>
static void indexed(int n)
{
	K *a = new K[n], *orig = new K[n];
	P *p = new P[n];
	Item<K> *r = new Item<K>[n];
	for (int i = 0; i < n; ++i) {
		a[i] = orig[i] = vf_any<K>("key", i);
		p[i] = vf_any<P>("stale", i);
	}
	CODE::insertion_sort(p, a, n);
	for (int i = 0; i < n; ++i) {
		vf_assert(p[i] < n, "the order lists positions");
		r[i].key = a[i];
		r[i].from = p[i];
	}
	check(r, orig, n);
	delete[] a;
	delete[] orig;
	delete[] p;
	delete[] r;
}
template <typename K>
static void values(int n)
{
	K *a = new K[n], *b = new K[n], *c = new K[n];
	uint8_t *p = new uint8_t[n];
	for (int i = 0; i < n; ++i)
		a[i] = b[i] = c[i] = vf_any<K>("key", i);
	CODE::insertion_sort(a, n);
	for (int i = 1; i < n; ++i)
		vf_assert(a[i-1] <= a[i], "the result is sorted");
	CODE::insertion_sort(p, b, n);
	CODE::MergeSort<K, 8, 2> *sort = new CODE::MergeSort<K, 8, 2>;
	(*sort)(c, n);
	for (int i = 0; i < n; ++i) {
		vf_assert(a[i] == b[i], "all sorts agree");
		vf_assert(a[i] == c[i], "all sorts agree");
	}
	delete[] a;
	delete[] b;
	delete[] c;
	delete[] p;
	delete sort;
}
template <typename K, int MAX_N, int M>
static void merging(int n)
{
	Item<K> *a = new Item<K>[n];
	K *orig = new K[n];
	for (int i = 0; i < n; ++i) {
		a[i].key = orig[i] = vf_any<K>("key", i);
		a[i].from = i;
	}
	CODE::MergeSort<Item<K>, MAX_N, M> *sort = new CODE::MergeSort<Item<K>, MAX_N, M>;
	(*sort)(a, n, [](Item<K> x, Item<K> y) { return x.key < y.key; });
	check(a, orig, n);
	delete[] a;
	delete[] orig;
	delete sort;
}
VF_ENTRY(h_insertion) { insertion<uint8_t>(vf_choose("length", 7)); }
VF_ENTRY(h_insertion_wide) { insertion<int32_t>(vf_choose("length", 6)); }
VF_ENTRY(h_indexed) { indexed<int8_t, int>(1 + vf_choose("length", 6)); }
VF_ENTRY(h_indexed_wide) { indexed<int32_t, uint8_t>(1 + vf_choose("length", 5)); }
VF_ENTRY(h_values) { values<int8_t>(1 + vf_choose("length", 5)); }
VF_ENTRY(h_merge_1) { merging<uint8_t, 6, 1>(vf_choose("length", 7)); }
VF_ENTRY(h_merge_2) { merging<uint8_t, 6, 2>(vf_choose("length", 7)); }
VF_ENTRY(h_merge_3) { merging<int16_t, 8, 3>(vf_choose("length", 7)); }
VF_ENTRY(h_merge_4) { merging<int16_t, 8, 4>(vf_choose("length", 7)); }
template <typename T, int WIDTH>
static void lanes()
{
	typedef SIMD<T, WIDTH> V;
	V a;
	for (int i = 0; i < WIDTH; ++i)
		a.v[i] = vf_any<T>("lane", i);
	auto p = vorder(a);
	V s = vsort(a);
	Item<T> r[WIDTH];
	T orig[WIDTH];
	for (int i = 0; i < WIDTH; ++i) {
		vf_assert(p.v[i] < WIDTH, "the order lists lanes");
		orig[i] = a.v[i];
		r[i].key = a.v[p.v[i]];
		r[i].from = p.v[i];
		vf_assert(s.v[i] == r[i].key, "sorted lanes follow the order");
	}
	check(r, orig, WIDTH);
}
VF_ENTRY(h_lanes)
{
	switch (vf_choose("type", 5)) {
	case 0: lanes<int8_t, 1>(); break;
	case 1: lanes<int16_t, 2>(); break;
	case 2: lanes<int32_t, 4>(); break;
	case 3: lanes<uint8_t, 4>(); break;
	case 4: lanes<int64_t, 2>(); break;
	}
}
VF_ENTRY(h_insertion_8) { insertion<uint8_t>(7 + vf_choose("length", 2)); }
VF_ENTRY(h_merge_long) { merging<uint8_t, 16, 4>(8 + vf_choose("length", 3)); }
VF_ENTRY(t_insertion_10) { insertion<uint8_t>(9 + vf_choose("length", 3)); }
VF_ENTRY(t_merge_13) { merging<uint8_t, 16, 4>(11 + vf_choose("length", 4)); }
VF_BOUNDED(b_merge_default) { merging<uint8_t, 31, 8>(vf_range<int>("length", 0, 31)); }
template <int WHICH>
static void native(int n)
{
	// keys repeat often, so that stability matters
	typedef std::pair<int, int> Pair;
	Pair *a = new Pair[n], *b = new Pair[n];
	int *key = new int[n], *pos = new int[n];
	for (int i = 0; i < n; ++i) {
		a[i] = b[i] = Pair(vf_range<int>("key", 0, 20, i), i);
		key[i] = a[i].first;
	}
	auto comp = [](Pair x, Pair y) { return x.first < y.first; };
	std::stable_sort(b, b + n, comp);
	if (WHICH == 0)
		CODE::insertion_sort(a, n, comp);
	if (WHICH == 1) {
		CODE::MergeSort<Pair, 300> *sort = new CODE::MergeSort<Pair, 300>;
		(*sort)(a, n, comp);
		delete sort;
	}
	if (WHICH == 2) {
		CODE::MergeSort<Pair, 300, 5> *sort = new CODE::MergeSort<Pair, 300, 5>;
		(*sort)(a, n, comp);
		delete sort;
	}
	if (WHICH == 3 && n) {
		CODE::insertion_sort(pos, key, n);
		for (int i = 0; i < n; ++i)
			a[i] = Pair(key[i], pos[i]);
	}
	for (int i = 0; i < n; ++i)
		vf_assert(a[i] == b[i], "the result is the stable sorted arrangement");
	delete[] a;
	delete[] b;
	delete[] key;
	delete[] pos;
}
VF_BOUNDED(b_insertion) { native<0>(vf_range<int>("length", 0, 300)); }
VF_BOUNDED(b_merge) { native<1>(vf_range<int>("length", 0, 300)); }
VF_BOUNDED(b_merge_5) { native<2>(vf_range<int>("length", 0, 300)); }
VF_BOUNDED(b_indexed) { native<3>(vf_range<int>("length", 0, 300)); }
VF_BOUNDED(b_lanes) { lanes<int8_t, 32>(); }
