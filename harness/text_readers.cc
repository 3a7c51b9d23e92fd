// C02, C03 (SubRip), C06 (WebVTT), C07 (text STL): generated documents against their model.
#include "gen.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "stl_text_reader.h"
#include <sstream>

using namespace h;
using std::string;
using std::vector;

static vector<sub::RawSubtitle> read_srt(string const& s, bool file)
{
	if (file) { MemFile f(s); return sub::SubripReader(f.get()).subtitles(); }
	return sub::SubripReader(s).subtitles();
}

static vector<sub::RawSubtitle> read_vtt(string const& s, bool file)
{
	if (file) { MemFile f(s); return sub::WebVTTReader(f.get()).subtitles(); }
	return sub::WebVTTReader(s).subtitles();
}

static vector<sub::RawSubtitle> read_stl(string const& s)
{
	QuietCout q;
	std::istringstream f(s);
	return sub::STLTextReader(f).subtitles();
}

// nothing but text, line, order and times
static vector<Exp> plain(vector<Exp> v)
{
	for (auto& i: v) {
		Exp e;
		e.text = i.text; e.from = i.from; e.to = i.to; e.vline = i.vline;
		i = e;
	}
	return v;
}

static void note_features(TextDoc const& d)
{
	for (int b = 0; b < 10; ++b) { if (d.features & (1 << b)) { count("feature-bit-" + std::to_string(b)); } }
	count("cues", d.cues);
	count("runs-compared", d.exp.size());
	if (d.bom) { count("with-bom"); }
	if (d.eol == "\r\n") { count("with-crlf"); }
	if (!d.final_eol) { count("without-final-newline"); }
	size_t longest = 0;
	for (auto const& l: d.lines) { longest = std::max(longest, l.size()); }
	if (longest > 255) { count("with-line-over-255-bytes"); }
	if (!d.exp.empty()) { judged(d.bytes); }
	if (d.bytes.size() < 1200 && d.cues > 1) { sample(show(d.bytes, 1200)); }
	input(d.bytes);
}

static void check(TextDoc const& d, std::function<vector<sub::RawSubtitle> ()> read, TimeFmt fmt, bool only_plain, string const& how)
{
	string key;
	try {
		auto raw = read();
		auto a = from_raws(raw, fmt);
		string r = only_plain ? compare(plain(d.exp), plain(a), key) : compare(d.exp, a, key);
		if (!r.empty()) { fail(key, how + ": " + r); return; }
		// collected, the same text must be there in order of start time
		auto c = sub::collect<vector<sub::Subtitle>>(raw);
		size_t bytes = 0, want = 0;
		for (auto const& i: c) { for (auto const& j: i.lines) { for (auto const& k: j.blocks) { bytes += k.text.size(); } } }
		for (auto const& i: d.exp) { want += i.text.size(); }
		if (bytes != want) { fail("collected-text", how + ": collected " + std::to_string(bytes) + " bytes of text, not " + std::to_string(want)); }
	} catch (sub::UnknownFrameRateError& e) {
		fail("rejected", how + ": UnknownFrameRateError");
	} catch (std::exception& e) {
		fail("rejected", how + ": a well-formed document was refused: " + desc_exception(e));
	}
}

static void c02(Rng& r, uint64_t i)
{
	SrtOpts o;
	o.markup = r.chance(1, 4);
	if (mix(i) % 50 == 7) { o.max_cues = 120; }
	if (mix(i) % 1000 == 13) { o.max_cues = 3000; }
	auto d = gen_srt(r, o);
	note_features(d);
	bool file = r.coin();
	check(d, [&]() { return read_srt(d.bytes, file); }, ms_time, true, file ? "from FILE*" : "from string");
}

static void c03(Rng& r, uint64_t)
{
	SrtOpts o;
	o.text.huge = false;
	o.text.max = 12;
	o.max_cues = 5;
	auto d = gen_srt(r, o);
	note_features(d);
	bool file = r.coin();
	check(d, [&]() { return read_srt(d.bytes, file); }, ms_time, false, file ? "from FILE*" : "from string");
}

static void c06(Rng& r, uint64_t i)
{
	VttOpts o;
	if (mix(i) % 50 == 7) { o.max_cues = 120; }
	if (mix(i) % 1000 == 13) { o.max_cues = 3000; }
	auto d = gen_vtt(r, o);
	note_features(d);
	bool file = r.coin();
	check(d, [&]() { return read_vtt(d.bytes, file); }, ms_time, false, file ? "from FILE*" : "from string");
}

static void c07(Rng& r, uint64_t i)
{
	StlTextOpts o;
	if (mix(i) % 50 == 7) { o.max_cues = 120; }
	if (mix(i) % 1000 == 13) { o.max_cues = 3000; }
	auto d = gen_stl_text(r, o);
	note_features(d);
	check(d, [&]() { return read_stl(d.bytes); }, unrated_time, false, "from stream");
}

int main(int argc, char** argv)
{
	string mode;
	for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--mode")) { mode = argv[i + 1]; } }
	if (mode == "C02") { return run(argc, argv, mode, c02); }
	if (mode == "C03") { return run(argc, argv, mode, c03); }
	if (mode == "C06") { return run(argc, argv, mode, c06); }
	if (mode == "C07") { return run(argc, argv, mode, c07); }
	return 3;
}
