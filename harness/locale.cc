// C17: results under every locale against those under the classic one.
#include "scenarios.h"
#include <clocale>

using namespace h;

// as in much of Europe, but without a name and so without effect on the C library
class Punct : public std::numpunct<char>
{
protected:
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
	std::string do_truename() const override { return "wahr"; }
};

class Punct2 : public std::numpunct<char>
{
protected:
	char do_decimal_point() const override { return '/'; }
	char do_thousands_sep() const override { return '0'; }
	std::string do_grouping() const override { return "\1"; }
};

// what some 8-bit locales make of the bytes of UTF-8: white space, and letters with odd partners
class Letters : public std::ctype<char>
{
public:
	Letters() : std::ctype<char>(table()) {}
	static mask const* table()
	{
		static mask t[table_size];
		static bool const done = []() {
			std::copy(classic_table(), classic_table() + table_size, t);
			for (int c = 0x80; c < 256; ++c) { t[c] = c == 0x85 || c == 0xa0 ? mask(space | (c == 0xa0 ? print : cntrl)) : c < 0xa0 ? mask(cntrl) : mask(print | alpha | (c & 0x20 ? lower : upper)); }
			return true;
		}();
		(void)done;
		return t;
	}
protected:
	char do_tolower(char c) const override
	{
		unsigned char const u = c;
		return u == 'I' ? char(0xfd) : u >= 'A' && u <= 'Z' ? c + 32 : u >= 0xc0 && u < 0xe0 ? char(u + 32) : c;
	}
	char do_toupper(char c) const override
	{
		unsigned char const u = c;
		return u == 'i' ? char(0xdd) : u >= 'a' && u <= 'z' ? c - 32 : u >= 0xe0 ? char(u - 32) : c;
	}
	char const* do_tolower(char* a, char const* b) const override { for (; a != b; ++a) { *a = do_tolower(*a); } return b; }
	char const* do_toupper(char* a, char const* b) const override { for (; a != b; ++a) { *a = do_toupper(*a); } return b; }
};

static vector<string> names;

static void before()
{
	char const* n = getenv("VERIF_LOCALES");
	std::istringstream s(n ? n : "");
	string k;
	while (std::getline(s, k, ':')) {
		if (!setlocale(LC_ALL, k.c_str())) { fprintf(stderr, "harness: no locale %s\n", k.c_str()); _exit(3); }
		names.push_back(k);
	}
	setlocale(LC_ALL, "C");
}

// bytes that some 8-bit locales think are white space, and letters whose case some locales change oddly
static string spice(Rng& r, Scenario const& s)
{
	if (s.format == STL_BINARY) { return s.bytes; }
	static char const* const bits[] = { "\xc3\xa0", "\xc3\x85", "\xc2\xa0", "\xe2\x80\xa0", "\xe3\x80\x80", "\xc4\xb0", "\xc4\xb1", "I", "i", "\xc7\x85", "\xe2\x80\xa6", "1.5", "0x1p3", "\xd0\xa0" };
	TextDoc d = s.doc;
	for (auto& l: d.lines) {
		if (l.find("-->") != string::npos || l.empty()) { continue; }
		switch (r.below(4)) {
		case 0: l += r.pick(bits); break;
		case 1: l = r.coin() && s.format != SSA && l.compare(0, 6, "WEBVTT") != 0 ? r.pick(bits) + l : l; break;
		default: break;
		}
	}
	if (s.format == STL_TEXT && r.coin()) { d.lines.insert(d.lines.begin(), r.pick(vector<string>{ "$FontName = Voil\xc3\xa0", "$FontName=\xc3\x85", "$FontName =\xe2\x80\x85x" })); }
	return serialise(d, d.eol, d.bom, d.final_eol);
}

static void c17(Rng& r, uint64_t i)
{
	ScenarioOpts o;
	o.damage_percent = 15;
	if (mix(i) % 100 == 7) { o.size = 60; }
	// numbers of four digits and more
	if (mix(i) % 150 == 9) { o.size = 3000; o.damage_percent = 0; o.huge = false; }
	auto s = gen_scenario(r, o);
	if (!s.damaged && r.coin()) { s.bytes = spice(r, s); }
	if (o.size == 3000 && s.format != STL_BINARY && r.coin()) { s.bytes += "\n1\n00:00:xx,000 --> 00:00:02,000\n"; }
	// what is read otherwise, or not, as the words are another matter
	ProcessOpts p;
	p.words = false;
	p.delivery = r.coin() ? AS_STRING : AS_DISK_FILE;
	string const name = format_name(s.format);
	input(s.bytes);
	judged(name + s.bytes);
	if (s.bytes.size() < 400) { sample(name + ": " + show(s.bytes, 400)); }
	Result base;
	{ QuietCout q; base = process(s, p); }
	// the environment's locale, then the process's
	int const n = static_cast<int>(names.size());
	for (int k = 0; k < 4; ++k) {
		string const l = n ? names[r.below(n)] : "";
		int const how = n ? r.below(7) : 3 + r.below(3);
		string what;
		switch (how) {
		case 0: what = "C locale " + l; setlocale(LC_ALL, l.c_str()); count("c-locale"); break;
		case 1: what = "global locale " + l; std::locale::global(std::locale(l.c_str())); count("global-locale"); break;
		case 2: what = "global C++ locale only " + l; std::locale::global(std::locale(l.c_str())); setlocale(LC_ALL, "C"); count("c++-locale"); break;
		case 3: what = "global locale with , and ."; std::locale::global(std::locale(std::locale::classic(), new Punct)); count("facet-locale"); break;
		case 4: what = "global locale with odd numbers"; std::locale::global(std::locale(std::locale::classic(), new Punct2)); count("facet-locale"); break;
		case 5: what = "global locale with odd letters"; std::locale::global(std::locale(std::locale::classic(), new Letters)); count("ctype-locale"); break;
		default: what = "environment " + l; setenv("LC_ALL", l.c_str(), 1); setenv("LANG", l.c_str(), 1); setlocale(LC_NUMERIC, l.c_str()); count("environment-locale"); break;
		}
		Result x;
		{ QuietCout q; x = process(s, p); }
		std::locale::global(std::locale::classic());
		setlocale(LC_ALL, "C");
		setenv("LC_ALL", "C", 1);
		unsetenv("LANG");
		string key;
		string const e = result_diff(base, x, key);
		count("comparisons");
		if (!e.empty()) { fail(name + " " + key, what + ": " + e); return; }
	}
	count(name);
	if (base.dump.find("Subtitle 1000 ") != string::npos) { count("thousand-dumped"); }
	if (base.written.size() > 1024 + 1000 * 128) { count("thousand-written"); }
	if (base.written.compare(0, 3, "ok\n") == 0) { count("written"); }
}

int main(int argc, char** argv) { return run(argc, argv, "C17", c17, before); }
