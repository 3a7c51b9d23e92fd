// C08 (binary STL text), C23 (binary STL header and codes), C11 (ISO 6937).
#include "gen_stlbin.h"
#include "iso6937.h"
#include "stl_binary_reader.h"
#include "stl_util.h"

using namespace h;
using std::string;
using std::vector;

static sub::STLBinaryReader read_stl(string const& s, bool file)
{
	if (file) { MemFile f(s); return sub::STLBinaryReader(f.get()); }
	std::istringstream f(s);
	return sub::STLBinaryReader(f);
}

static void c08(Rng& r, uint64_t i)
{
	StlBinOpts o;
	if (mix(i) % 50 == 7) { o.max_subs = 200; }
	if (mix(i) % 1000 == 13) { o.max_subs = 3000; }
	auto d = gen_stl_bin(r, o);
	input(d.bytes.substr(0, 1024) + "...");
	for (int b = 0; b < 10; ++b) { if (d.features & (1 << b)) { count("feature-bit-" + std::to_string(b)); } }
	count("subtitles", d.subtitles);
	count("blocks", d.blocks.size());
	count("runs-compared", d.exp.size());
	if (!d.exp.empty()) { judged(d.bytes); }
	if (d.blocks.size() == 2 && !d.exp.empty()) { sample(d.header.dfc + " MNR " + d.header.mnr + " " + show(d.blocks[0].bytes()) + " " + show(d.blocks[1].bytes())); }
	string in;
	for (auto const& b: d.blocks) { in += show(b.bytes(), 1000) + "\n"; }
	input(d.header.dfc + " MNR " + d.header.mnr + "\n" + in);
	bool const file = r.coin();
	string key;
	try {
		auto reader = read_stl(d.bytes, file);
		auto a = from_raws(reader.subtitles(), stl_fmt(d.rate));
		string res = compare(d.exp, a, key);
		if (!res.empty()) { fail(key, (file ? "from FILE*: " : "from stream: ") + res); }
	} catch (std::exception& e) {
		fail("rejected", "a well-formed file was refused: " + desc_exception(e));
	}
}

// ---------------------------------------------------------------- C23
static string lower(string s) { for (auto& c: s) { c = tolower(c); } return s; }

static int distance(string const& a, string const& b)
{
	vector<int> d(b.size() + 1);
	for (size_t j = 0; j <= b.size(); ++j) { d[j] = j; }
	for (size_t i = 1; i <= a.size(); ++i) {
		int prev = d[0];
		d[0] = i;
		for (size_t j = 1; j <= b.size(); ++j) {
			int t = d[j];
			d[j] = std::min(std::min(d[j] + 1, d[j - 1] + 1), prev + (a[i - 1] != b[j - 1]));
			prev = t;
		}
	}
	return d[b.size()];
}

// a description names its own code best; its exact spelling is no concern of the property's
template <class C, size_t N> bool describes(string const& said, C const (&codes)[N], C const& want)
{
	if (said.empty()) { return false; }
	int best = 1 << 20, own = 0;
	for (auto const& c: codes) {
		int v = distance(lower(said), lower(c.name));
		if (c.value == want.value) { own = v; } else { best = std::min(best, v); }
	}
	return own < best && own <= 3;
}

static void header_case(Rng& r)
{
	Header hd = gen_header(r, true);
	int const n = r.below(4);
	hd.tnb = pad_number(r, n, 5);
	string bytes = hd.bytes();
	Tti t;
	t.tf = "x";
	for (int k = 0; k < n; ++k) { bytes += t.bytes(); }
	input(bytes.substr(0, 373));
	judged(bytes);
	bool const file = r.coin();
	try {
		auto rd = read_stl(bytes, file);
		auto meta = rd.metadata();
		auto text = [&](string name, string const& got, string const& want, string const& key) {
			count("fields-compared");
			if (got != want) { fail("field " + name, name + ": read " + show(got) + ", not " + show(want)); }
			if (!meta.count(key)) { fail("metadata " + key, "no metadata called " + key); }
			else if (meta[key] != want) { fail("metadata " + key, key + ": metadata " + show(meta[key]) + ", not " + show(want)); }
		};
		auto number = [&](string name, int got, int want, string const& key) {
			count("fields-compared");
			if (got != want) { fail("field " + name, name + ": read " + std::to_string(got) + ", not " + std::to_string(want)); }
			if (!meta.count(key) || meta[key] != std::to_string(want)) { fail("metadata " + key, key + ": metadata " + show(meta[key]) + ", not " + std::to_string(want)); }
		};
		text("OPT", rd.original_programme_title, hd.opt, "Original programme title");
		text("OET", rd.original_episode_title, hd.oet, "Original episode title");
		text("TPT", rd.translated_programme_title, hd.tpt, "Translated programme title");
		text("TET", rd.translated_episode_title, hd.tet, "Translated episode title");
		text("TN", rd.translator_name, hd.tn, "Translator name");
		text("TCD", rd.translator_contact_details, hd.tcd, "Translator contact details");
		text("SLR", rd.subtitle_list_reference_code, hd.slr, "Subtitle list reference code");
		text("CD", rd.creation_date, hd.cd, "Creation date");
		text("RD", rd.revision_date, hd.rd, "Revision date");
		text("RN", rd.revision_number, hd.rn, "Revision number");
		text("TCP", rd.start_of_programme, hd.tcp, "Start of programme");
		text("TCF", rd.first_in_cue, hd.tcf, "First in cue");
		text("CO", rd.country_of_origin, hd.co, "Country of origin");
		text("PUB", rd.publisher, hd.pub, "Publisher");
		text("EN", rd.editor_name, hd.en, "Editor name");
		text("ECD", rd.editor_contact_details, hd.ecd, "Editor contact details");
		number("CPN", rd.code_page_number, atoi(hd.cpn.c_str()), "Code page number");
		number("TNB", rd.tti_blocks, n, "TTI blocks");
		number("TNS", rd.number_of_subtitles, atoi(hd.tns.c_str()), "Number of subtitles");
		number("TNG", rd.subtitle_groups, atoi(hd.tng.c_str()), "Subtitle groups");
		number("MNC", rd.maximum_characters, atoi(hd.mnc.c_str()), "Maximum characters");
		int const mnr = atoi(hd.mnr.c_str());
		number("MNR", rd.maximum_rows, mnr == 99 ? 12 : mnr, "Maximum rows");
		number("TND", rd.disks, atoi(hd.tnd.c_str()), "Disks");
		number("DSN", rd.disk_sequence_number, atoi(hd.dsn.c_str()), "Disk sequence number");
		for (auto const& c: rate_codes) {
			if (hd.dfc != c.dfc) { continue; }
			if (std::fabs(rd.frame_rate - c.fps) > 1e-3) { fail("field DFC", hd.dfc + " read as " + num(rd.frame_rate)); }
			std::istringstream s(meta["Frame rate"]);
			s.imbue(std::locale::classic());
			double v = 0;
			s >> v;
			if (std::fabs(v - c.fps) > 1e-3 || !s.eof()) { fail("metadata Frame rate", hd.dfc + " listed as " + show(meta["Frame rate"])); }
		}
		for (auto const& c: language_codes) {
			if (hd.lc != c.code) { continue; }
			if (rd.language != c.value) { fail("field LC", "language " + hd.lc + " read as " + std::to_string(rd.language)); }
			if (!describes(meta["Language"], language_codes, c)) { fail("metadata Language", "language " + hd.lc + " listed as " + show(meta["Language"])); }
		}
		for (auto const& c: language_group_codes) {
			if (hd.cct != c.code) { continue; }
			if (rd.language_group != c.value) { fail("field CCT", "group " + hd.cct + " read as " + std::to_string(rd.language_group)); }
			if (!describes(meta["Language group"], language_group_codes, c)) { fail("metadata Language group", "group " + hd.cct + " listed as " + show(meta["Language group"])); }
		}
		for (auto const& c: display_standard_codes) {
			if (hd.dsc != c.code) { continue; }
			if (rd.display_standard != c.value) { fail("field DSC", "display standard " + hd.dsc + " read as " + std::to_string(rd.display_standard)); }
			if (!describes(meta["Display standard"], display_standard_codes, c)) { fail("metadata Display standard", hd.dsc + " listed as " + show(meta["Display standard"])); }
		}
		for (auto const& c: timecode_status_codes) {
			if (hd.tcs != c.code) { continue; }
			if (rd.timecode_status != c.value) { fail("field TCS", "time code status " + hd.tcs + " read as " + std::to_string(rd.timecode_status)); }
			if (!describes(meta["Timecode status"], timecode_status_codes, c)) { fail("metadata Timecode status", hd.tcs + " listed as " + show(meta["Timecode status"])); }
		}
	} catch (std::exception& e) {
		fail("rejected", "a well-formed header was refused: " + desc_exception(e));
	}
}

template <class F> bool refused(F f) { try { f(); return false; } catch (sub::STLError&) { return true; } }

template <class C, size_t N, class FE, class ED>
void string_table(Rng& r, string const& name, C const (&codes)[N], FE file_to_enum, ED describe, size_t width)
{
	for (auto const& c: codes) {
		count("codes-checked");
		try {
			if (file_to_enum(c.code) != c.value) { fail(name + " code", name + " " + c.code + " is not " + c.name); }
			if (!describes(describe(c.value), codes, c)) { fail(name + " description", name + " " + c.code + " describes itself as " + show(describe(c.value))); }
		} catch (sub::STLError&) { fail(name + " refused", name + " " + c.code + " is refused"); }
	}
	for (int k = 0; k < 40; ++k) {
		string s;
		for (size_t i = 0; i < width; ++i) { s += r.coin() ? char(r.below(256)) : "0123456789ABCDEFGHUZ "[r.below(21)]; }
		bool known = false;
		// lower-case digits are left alone
		for (auto const& c: codes) { if (lower(s) == lower(c.code)) { known = true; } }
		if (known) { continue; }
		count("undefined-codes-tried");
		if (!refused([&]() { file_to_enum(s); })) { fail(name + " undefined", "undefined " + name + " " + show(s) + " is accepted"); }
	}
}

template <class C, size_t N, class FE, class EF, class ED>
void int_table(Rng& r, string const& name, C const (&codes)[N], FE file_to_enum, EF enum_to_file, ED describe)
{
	for (auto const& c: codes) {
		count("codes-checked");
		try {
			if (file_to_enum(c.code) != c.value) { fail(name + " code", name + " " + std::to_string(c.code) + " is not " + c.name); }
			if (enum_to_file(c.value) != c.code) { fail(name + " written code", name + " " + c.name + " is written as " + std::to_string(enum_to_file(c.value))); }
			if (!describes(describe(c.value), codes, c)) { fail(name + " description", name + " " + std::to_string(c.code) + " describes itself as " + show(describe(c.value))); }
		} catch (sub::STLError&) { fail(name + " refused", name + " " + std::to_string(c.code) + " is refused"); }
	}
	for (int k = 0; k < 20; ++k) {
		int v = r.coin() ? r.below(256) : int(r.u64());
		if (v >= 0 && v < int(N)) { continue; }
		count("undefined-codes-tried");
		if (!refused([&]() { file_to_enum(v); })) { fail(name + " undefined", "undefined " + name + " " + std::to_string(v) + " is accepted"); }
	}
}

static void tables_case(Rng& r, uint64_t i)
{
	sub::STLBinaryTables t;
	switch (i / 4 % 4) {
	case 0:
		string_table(r, "language", language_codes, [&](string s) { return t.language_file_to_enum(s); }, [&](sub::Language l) { return t.language_enum_to_description(l); }, 2);
		for (auto const& c: language_codes) {
			if (t.language_enum_to_file(c.value) != c.code) { fail("language written code", string(c.name) + " is written as " + show(t.language_enum_to_file(c.value)) + ", not " + c.code); }
			auto back = t.language_description_to_enum(t.language_enum_to_description(c.value));
			if (!back || *back != c.value) { fail("language by description", string(c.name) + " is not found by its description"); }
		}
		break;
	case 1:
		string_table(r, "language group", language_group_codes, [&](string s) { return t.language_group_file_to_enum(s); }, [&](sub::LanguageGroup l) { return t.language_group_enum_to_description(l); }, 2);
		string_table(r, "display standard", display_standard_codes, [&](string s) { return t.display_standard_file_to_enum(s); }, [&](sub::DisplayStandard l) { return t.display_standard_enum_to_description(l); }, 1);
		break;
	case 2:
		string_table(r, "timecode status", timecode_status_codes, [&](string s) { return t.timecode_status_file_to_enum(s); }, [&](sub::TimecodeStatus l) { return t.timecode_status_enum_to_description(l); }, 1);
		int_table(r, "cumulative status", cumulative_codes, [&](int s) { return t.cumulative_status_file_to_enum(s); }, [&](sub::CumulativeStatus l) { return t.cumulative_status_enum_to_file(l); }, [&](sub::CumulativeStatus l) { return t.cumulative_status_enum_to_description(l); });
		int_table(r, "justification", justification_codes, [&](int s) { return t.justification_file_to_enum(s); }, [&](sub::Justification l) { return t.justification_enum_to_file(l); }, [&](sub::Justification l) { return t.justification_enum_to_description(l); });
		int_table(r, "comment", comment_codes, [&](int s) { return t.comment_file_to_enum(s); }, [&](sub::Comment l) { return t.comment_enum_to_file(l); }, [&](sub::Comment l) { return t.comment_enum_to_description(l); });
		break;
	default:
		for (auto const& c: rate_codes) {
			count("codes-checked");
			if (sub::stl_frame_rate_to_dfc(c.fps) != c.dfc) { fail("disk format written", num(c.fps) + " fps is written as " + sub::stl_frame_rate_to_dfc(c.fps)); }
			try {
				if (std::fabs(sub::stl_dfc_to_frame_rate(c.dfc) - c.fps) > 1e-3) { fail("disk format code", string(c.dfc) + " is read as " + num(sub::stl_dfc_to_frame_rate(c.dfc))); }
			} catch (sub::STLError&) { fail("disk format refused", string(c.dfc) + " is refused"); }
		}
		for (int k = 0; k < 50; ++k) {
			string s = r.pick(rate_codes).dfc;
			switch (r.below(3)) {
			case 0: s[r.below(8)] = r.below(256); break;
			case 1: s[3] = '0' + r.below(10); s[4] = '0' + r.below(10); break;
			default: s = gen_field(r, 8);
			}
			bool known = false;
			for (auto const& c: rate_codes) { if (s == c.dfc) { known = true; } }
			// other rates that a reader might come to know
			if (known || s == "STL29.01" || s == "STL48.01" || s == "STL50.01" || s == "STL60.01") { continue; }
			if (s.substr(0, 3) == "STL" && s.substr(5) == ".01" && isdigit(static_cast<unsigned char>(s[3])) && isdigit(static_cast<unsigned char>(s[4]))) { count("undefined-rates-tried"); }
			count("undefined-codes-tried");
			if (!refused([&]() { sub::stl_dfc_to_frame_rate(s); })) { fail("disk format undefined", "undefined disk format " + show(s) + " is accepted"); }
		}
	}
}

static void c23(Rng& r, uint64_t i)
{
	if (i % 16 == 3) { tables_case(r, i / 4); judged(i); } else { header_case(r); }
}

// ---------------------------------------------------------------- C11
static vector<uint32_t> points(std::wstring const& w) { return vector<uint32_t>(w.begin(), w.end()); }
static std::wstring wide(vector<uint32_t> const& v) { return std::wstring(v.begin(), v.end()); }

static void expect_encoding(vector<uint32_t> const& v, string const& how)
{
	string const b = sub::utf16_to_iso6937(wide(v));
	count("strings-encoded");
	if (b.find('\0') != string::npos) { fail("encoded-nul", how + ": NUL in the encoding of " + iso::show_points(v)); return; }
	auto const want = iso::representable(v);
	auto const got = iso::decode(b);
	if (got != want) { fail("encoding", how + ": " + iso::show_points(v) + " is encoded as " + show(b) + ", which means " + iso::show_points(got)); return; }
	auto const back = points(sub::iso6937_to_utf16(b));
	if (back != want) { fail("round-trip", how + ": " + iso::show_points(v) + " is encoded as " + show(b) + " and decoded as " + iso::show_points(back)); return; }
	string const again = sub::utf16_to_iso6937(wide(v));
	if (again != b) { fail("history", how + ": " + iso::show_points(v) + " is encoded as " + show(b) + " and then as " + show(again)); }
}

static void expect_decoding(string const& b, string const& how)
{
	auto const got = points(sub::iso6937_to_utf16(b));
	count("strings-decoded");
	auto const want = iso::decode(b);
	if (std::find(got.begin(), got.end(), 0) != got.end()) { fail("decoded-nul", how + ": NUL in the decoding of " + show(b)); return; }
	if (got != want) { fail("decoding", how + ": " + show(b) + " is decoded as " + iso::show_points(got) + ", not " + iso::show_points(want)); }
}

static string gen_bytes(Rng& r, size_t max)
{
	string b;
	for (size_t n = r.skewed(max); n; --n) {
		switch (r.below(5)) {
		case 0: b += char(r.range(0xc0, 0xd0)); break;
		case 1: b += char(r.range(0xa0, 0xff)); break;
		case 2: b += char(r.range(1, 255)); break;
		default: b += char(r.range(0x20, 0x7e));
		}
	}
	return b;
}

static vector<uint32_t> gen_points(Rng& r, size_t max, bool marks)
{
	vector<uint32_t> v;
	for (size_t n = r.skewed(max); n; --n) {
		switch (r.below(9)) {
		case 0: v.push_back(r.pick(iso::tables().repertoire)); break;
		case 1: v.push_back(r.pick(iso::tables().composed)); break;
		case 2: if (marks) { v.push_back(r.pick(iso::accents).mark); } break;
		case 3: v.push_back(r.below(0x250)); break;
		case 4: v.push_back(r.pick(vector<uint32_t>{ 0x201e, 0x2013, 0x2014, 0x2010, 0x2011, 0x2012, 0x2032, 0, 0x7f, 0x80, 0x9f, 0xa0, 0xd800, 0xdfff, 0xfeff, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff, 10, 13, 0x2028 })); break;
		case 5: v.push_back(r.below(0x11000)); break;
		default: v.push_back(r.range(0x20, 0x7e));
		}
		if (!marks && iso::tables().mark.count(v.empty() ? 0 : v.back())) { v.pop_back(); }
	}
	return v;
}

static void c11(Rng& r, uint64_t i)
{
	auto const& t = iso::tables();
	if (i < 400) {
		// every character of the repertoire, on its own and between others
		uint32_t const c = t.repertoire[i % t.repertoire.size()];
		input(iso::show_points({ c }));
		judged(c);
		count("repertoire-characters");
		expect_encoding({ c }, "alone");
		for (int k = 0; k < 20; ++k) { expect_encoding({ r.pick(t.repertoire), c, r.pick(t.repertoire) }, "in context"); }
		expect_encoding({ c, c, 'x', c }, "repeated");
		return;
	}
	if (i < 656) {
		// every byte, and every accent before every byte
		int const b = i - 400;
		if (b == 0) { judged(i); return; }
		input(show(string(1, char(b))));
		judged(i);
		count("bytes");
		expect_decoding(string(1, char(b)), "alone");
		for (int a = 0xc0; a <= 0xd0; ++a) {
			expect_decoding(string(1, char(a)) + char(b), "after a byte");
			expect_decoding("x" + string(1, char(a)) + char(b) + "y", "in context");
		}
		return;
	}
	if (r.coin()) {
		string const b = gen_bytes(r, 60);
		input(show(b));
		judged(b);
		expect_decoding(b, "random bytes");
		// and after some unrelated work
		(void) sub::utf16_to_iso6937(wide(gen_points(r, 20, true)));
		(void) sub::iso6937_to_utf16(gen_bytes(r, 20));
		expect_decoding(b, "after other work");
		// one that differs in a single byte somewhere
		if (b.size() > 2) {
			string c = b;
			char& x = c[1 + r.below(c.size() - 2)];
			x ^= x == 1 ? 2 : 1;
			expect_decoding(c, "after a near copy");
			string const p = gen_bytes(r, 60);
			expect_decoding(p + b + p, "long");
			expect_decoding(p + c + p, "long, after a near copy");
			expect_decoding(p + b + p, "long, after a near copy");
			count("near-copies", 4);
		}
	} else {
		auto const v = gen_points(r, 60, true);
		input(iso::show_points(v));
		judged(iso::show_points(v));
		if (v.size() < 12) { sample(iso::show_points(v)); }
		expect_encoding(v, "random characters");
		(void) sub::iso6937_to_utf16(gen_bytes(r, 20));
		expect_encoding(v, "after other work");
		if (v.size() > 2) {
			auto w = v;
			auto& x = w[1 + r.below(w.size() - 2)];
			x = x == 'a' ? 'b' : 'a';
			expect_encoding(w, "after a near copy");
			auto const p = gen_points(r, 60, true);
			auto around = [&](vector<uint32_t> const& m) {
				auto o = p;
				o.insert(o.end(), m.begin(), m.end());
				o.insert(o.end(), p.begin(), p.end());
				return o;
			};
			expect_encoding(around(v), "long");
			expect_encoding(around(w), "long, after a near copy");
			expect_encoding(around(v), "long, after a near copy");
			count("near-copies", 4);
		}
		auto const a = gen_points(r, 20, false), b = gen_points(r, 20, false);
		auto ab = a;
		ab.insert(ab.end(), b.begin(), b.end());
		if (sub::utf16_to_iso6937(wide(ab)) != sub::utf16_to_iso6937(wide(a)) + sub::utf16_to_iso6937(wide(b))) {
			fail("context", "the encoding of " + iso::show_points(a) + "and " + iso::show_points(b) + "together is not that of each");
		}
	}
}

int main(int argc, char** argv)
{
	string mode;
	for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--mode")) { mode = argv[i + 1]; } }
	if (mode == "C08") { return run(argc, argv, mode, c08); }
	if (mode == "C23") { return run(argc, argv, mode, c23); }
	if (mode == "C11") { return run(argc, argv, mode, c11); }
	return 3;
}
