// C21: digests of everything a document gives, for the driver to compare between processes whose memory and history
// differ; and, within one process, that results given out and arguments passed in stay as they were.
#include "scenarios.h"
#include "iso6937.h"

using namespace h;

static FILE* digests = nullptr;
static uint64_t total = 0;
static bool reverse_order = false, full = false;

static Scenario own_scenario(uint64_t i)
{
	Rng r(mix(st().seed * 1000003 + i) ^ 0x21);
	ScenarioOpts o;
	o.damage_percent = 25;
	o.huge = mix(i) % 8 == 0;
	o.size = mix(i) % 100 == 7 ? 60 : 6;
	return gen_scenario(r, o);
}

// one of eight is the one before with one letter or digit changed
static bool near_copy(uint64_t i) { return i && mix(i) % 8 == 3; }

static Scenario scenario(uint64_t i)
{
	if (!near_copy(i)) { return own_scenario(i); }
	Scenario s = own_scenario(i - 1);
	Rng r(mix(st().seed * 1000003 + i) ^ 0x23);
	for (int tries = 0; tries < 50 && !s.bytes.empty(); ++tries) {
		char& c = s.bytes[r.below(s.bytes.size())];
		if (isdigit(static_cast<unsigned char>(c))) { c = c == '0' ? '1' : c - 1; break; }
		if (islower(static_cast<unsigned char>(c))) { c = c == 'a' ? 'b' : c - 1; break; }
	}
	return s;
}

static string other_values(uint64_t i)
{
	Rng r(mix(st().seed * 1000003 + i) ^ 0x22);
	return outcome([&]() {
		string o;
		string const t = iso::gen_repertoire_text(r, 30) + gen_text(r, TextOpts());
		std::wstring w;
		for (auto c: iso::from_utf8(t)) { w += static_cast<wchar_t>(c); }
		string const e = sub::utf16_to_iso6937(w);
		o += show(e, 10000) + "\n";
		for (wchar_t c: sub::iso6937_to_utf16(e)) { o += utf8(c); }
		sub::Time a = sub::Time::from_frames(r.below(1000000), sub::Rational(25, 1));
		a.add(sub::Time::from_hms(1, 2, 3, r.below(1000)));
		a.scale(r.unit());
		o += "\n" + desc(a);
		o += desc(sub::RawSubtitle());
		o += desc(sub::Subtitle());
		o += desc(sub::Colour::from_rgb_hex("12ab34"));
		return o;
	});
}

static void before()
{
	char const* d = getenv("VERIF_DIGESTS");
	if (d) { digests = fopen((string(d) + "/" + std::to_string(getpid())).c_str(), "w"); if (!digests) { _exit(3); } }
	char const* t = getenv("VERIF_TOTAL");
	total = t ? strtoull(t, 0, 10) : 0;
	reverse_order = getenv("VERIF_REVERSE");
	full = getenv("VERIF_FULL");
}

static void after() { if (digests) { fclose(digests); } }

// stack and heap that are not zero, and differ from case to case
static void __attribute__((noinline)) dirty(uint64_t x)
{
	volatile unsigned char a[20000];
	for (size_t j = 0; j < sizeof(a); ++j) { a[j] = static_cast<unsigned char>(x >> (j % 8 * 8)); }
	vector<void*> v;
	for (size_t n = 8; n < 6000; n += n / 4 + 8) { for (int k = 0; k < 3; ++k) { void* p = malloc(n); if (p) { memset(p, static_cast<int>(x + n), n); v.push_back(p); } } }
	for (auto p: v) { free(p); }
}

// what is kept from an earlier case
struct Kept
{
	vector<sub::RawSubtitle> raw;
	vector<sub::Subtitle> subs;
	std::shared_ptr<sub::Reader> reader;
	string raw_desc, subs_desc, reader_desc;
};

static string reader_desc(sub::Reader const& r) { return desc(r.subtitles()) + desc(r.metadata()); }

static void c21(Rng&, uint64_t k)
{
	static Kept kept;
	uint64_t const i = reverse_order ? total - 1 - k : k;
	QuietCout q;
	Scenario const s = scenario(i);
	input(s.bytes);
	dirty(mix(i * 7 + (reverse_order ? 1 : 0)));
	ProcessOpts p;
	p.delivery = AS_STRING;
	// in one of the two orders the near copy comes directly before
	if (near_copy(i) && !reverse_order) { process(own_scenario(i - 1), p); count("near-copies"); }
	Result const x = process(s, p);
	string const other = other_values(i);
	judged(string(format_name(s.format)) + s.bytes);
	count(format_name(s.format));
	if (x.written.compare(0, 3, "ok\n") == 0) { count("files-written"); }
	if (s.bytes.size() < 400) { sample(string(format_name(s.format)) + ": " + show(s.bytes, 400)); }
	if (digests) {
		auto const d = [](string const& t) { return static_cast<unsigned long long>(hash(t)); };
		fprintf(digests, "%llu %llx %llx %llx %llx %llx %llx\n", static_cast<unsigned long long>(i), d(x.read), d(x.metadata), d(x.collected), d(x.dump), d(x.written), d(other));
	}
	if (full) { write_file(string(getenv("VERIF_FULL")), x.all() + "\n----\n" + other); }

	// again, at once: the same
	if (i % 4 == 0) {
		string key;
		Result const y = process(s, p);
		string const e = result_diff(x, y, key);
		if (!e.empty()) { fail("again " + key, string(format_name(s.format)) + ", the second time: " + e); }
		if (other_values(i) != other) { fail("again values", diff(other, other_values(i))); }
		count("repeated");
	}

	// what was given out before, or passed in, has not changed
	if (kept.reader) {
		if (desc(kept.raw) != kept.raw_desc) { fail("earlier-raw", diff(kept.raw_desc, desc(kept.raw))); }
		if (desc(kept.subs) != kept.subs_desc) { fail("earlier-collected", diff(kept.subs_desc, desc(kept.subs))); }
		if (reader_desc(*kept.reader) != kept.reader_desc) { fail("earlier-reader", diff(kept.reader_desc, reader_desc(*kept.reader))); }
		count("earlier-checked");
	}
	kept = Kept();
	try {
		string const bytes = s.bytes;
		kept.reader = read_as(s.format, bytes);
		if (bytes != s.bytes) { fail("argument-bytes", "the string read was changed"); }
		kept.reader_desc = reader_desc(*kept.reader);
		kept.raw = kept.reader->subtitles();
		kept.raw_desc = desc(kept.raw);
		try {
			kept.subs = sub::collect<vector<sub::Subtitle>>(kept.raw);
		} catch (std::exception&) {}
		if (desc(kept.raw) != kept.raw_desc) { fail("argument-raw", "collect changed its argument"); }
		kept.subs_desc = desc(kept.subs);
		std::ostringstream d;
		try { sub::dump(kept.reader, d); } catch (std::exception&) {}
		try { write_to_string(kept.subs, s.args); } catch (std::exception&) {}
		if (desc(kept.subs) != kept.subs_desc) { fail("argument-subtitles", "writing changed its argument"); }
		if (reader_desc(*kept.reader) != kept.reader_desc) { fail("argument-reader", "dumping changed its argument"); }
	} catch (std::exception&) {
		kept.reader.reset();
	}
}

int main(int argc, char** argv) { return run(argc, argv, "C21", c21, before, after); }
