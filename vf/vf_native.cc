// native side of the harness interface: replay of counterexamples and bounded random exploration
#include "vf.hh"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <chrono>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#define VF_ASAN 1
#endif

static VfEntry *head;
VfEntry::VfEntry(const char *n, void (*f)(), bool b) : name(n), func(f), bounded(b), next(head)
{
	head = this;
}

struct Skip {};
struct Fail { std::string label; };
typedef std::pair<std::string, int> Key;
struct Rec { Key key; bool choose; uint64_t val; };
static bool replaying, failing;
static std::map<Key, uint64_t> given, gchoose;
static std::vector<Rec> record;
static std::string entry_name, out_path;
static uint64_t rs;
static int style;
static uint64_t covers, asserts;

static uint64_t rnd()
{
	uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static void dump(const char *label)
{
	if (out_path.empty())
		return;
	FILE *f = fopen(out_path.c_str(), "w");
	if (!f)
		return;
	fprintf(f, "entry %s\nlabel %s\n", entry_name.c_str(), label);
	for (auto &r : record)
		fprintf(f, "%s %s %d %llu\n", r.choose ? "choose" : "input", r.key.first.c_str(), r.key.second, (unsigned long long)r.val);
	fclose(f);
}

static uint64_t draw(const char *name, int idx, uint64_t span)
{
	Key k(name, idx);
	uint64_t v;
	if (replaying) {
		auto it = given.find(k);
		v = it == given.end() ? 0 : it->second;
	} else {
		uint64_t r = rnd();
		int s = style;
		if (s == 7)
			s = rnd() % 7;
		switch (s) {
		case 1: v = (r & 3) ? 0 : rnd(); break;
		case 2: v = r & rnd() & rnd(); break;
		case 3: v = (r % 3) ? span - (rnd() % 3) % (span ? span : 1) : rnd(); break;
		case 4: v = (r & 256) ? rnd() % 3 : rnd(); break;
		case 5: v = 1ull << (r & 63); break;
		case 6: v = (r & 1) ? span : (r & 2) ? span / 2 : (r & 4) ? span / 2 + 1 : (r & 8) ? 0 : rnd(); break;
		default: v = rnd();
		}
		if (span != ~0ull && v > span)
			v %= span + 1;
	}
	record.push_back({ k, false, v });
	return v;
}

extern "C" uint64_t vf_any_raw(const char *name, int idx, int bits)
{
	return draw(name, idx, bits >= 64 ? ~0ull : (1ull << bits) - 1);
}
extern "C" int64_t vf_range_raw(const char *name, int idx, int64_t lo, int64_t hi)
{
	return (int64_t)((uint64_t)lo + draw(name, idx, (uint64_t)hi - (uint64_t)lo));
}
extern "C" void vf_assume(bool c)
{
	if (!c)
		throw Skip();
}
extern "C" void vf_assert(bool c, const char *label)
{
	++asserts;
	if (!c)
		throw Fail { label };
}
extern "C" void vf_lemma(bool c, const char *label) { vf_assert(c, label); }
extern "C" void vf_cover(bool c, const char *) { covers += c; }
extern "C" uint32_t vf_choose_raw(const char *name, uint32_t n)
{
	Key k(name, 0);
	uint32_t v = 0;
	if (replaying) {
		auto it = gchoose.find(k);
		v = it == gchoose.end() ? 0 : it->second;
		it = gchoose.find(k);
	} else
		v = rnd() % n;
	record.push_back({ k, true, v });
	return v;
}
extern "C" int vf_is_symbolic() { return 0; }
extern "C" void vf_note(const char *) {}

static void on_signal(int s)
{
	char b[64];
	snprintf(b, sizeof(b), "signal-%d", s);
	dump(b);
	printf("FAIL %s\n", b);
	fflush(stdout);
	_exit(1);
}
static void on_death()
{
	dump("sanitizer-report");
	printf("FAIL sanitizer-report\n");
	fflush(stdout);
}

int main(int argc, char **argv)
{
	if (argc >= 2 && std::string(argv[1]) == "list") {
		for (VfEntry *e = head; e; e = e->next)
			printf("%s %d\n", e->name, e->bounded);
		return 0;
	}
	if (argc < 3)
		return 2;
	std::string mode = argv[1];
	entry_name = argv[2];
	VfEntry *e = head;
	while (e && entry_name != e->name)
		e = e->next;
	if (!e) {
		printf("no entry %s\n", argv[2]);
		return 2;
	}
	for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM })
		signal(s, on_signal);
#ifdef VF_ASAN
	__sanitizer_set_death_callback(on_death);
#endif
	if (mode == "replay") {
		replaying = true;
		FILE *f = fopen(argv[3], "r");
		if (!f)
			return 2;
		char line[4096], kind[32], name[256];
		while (fgets(line, sizeof(line), f)) {
			int idx;
			unsigned long long v;
			if (sscanf(line, "%31s %255s %d %llu", kind, name, &idx, &v) != 4)
				continue;
			if (std::string(kind) == "input")
				given[Key(name, idx)] = v;
			else if (std::string(kind) == "choose")
				gchoose[Key(name, idx)] = v;
		}
		fclose(f);
		alarm(60);
		try {
			e->func();
		} catch (Skip &) {
			printf("SKIP\n");
			return 3;
		} catch (Fail &x) {
			printf("FAIL %s\n", x.label.c_str());
			return 1;
		}
		printf("HELD\n");
		return 0;
	}
	// search ENTRY SEED SECONDS MAXTRIALS OUT
	uint64_t seed = strtoull(argv[3], 0, 10);
	double secs = atof(argv[4]);
	uint64_t maxt = strtoull(argv[5], 0, 10);
	out_path = argv[6];
	auto t0 = std::chrono::steady_clock::now();
	uint64_t trials = 0, skips = 0;
	while (trials < maxt) {
		if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
			break;
		rs = seed * 1000003 + trials * 0x9E3779B97F4A7C15ull + 12345;
		for (const char *c = e->name; *c; ++c)
			rs = rs * 31 + *c;
		rnd();
		style = trials % 8;
		record.clear();
		++trials;
		alarm(120);
		try {
			e->func();
		} catch (Skip &) {
			++skips;
		} catch (Fail &x) {
			dump(x.label.c_str());
			printf("FAIL %s\n", x.label.c_str());
			return 1;
		}
	}
	alarm(0);
	printf("OK trials=%llu skipped=%llu asserts=%llu covers=%llu\n", (unsigned long long)trials, (unsigned long long)skips, (unsigned long long)asserts, (unsigned long long)covers);
	return 0;
}
