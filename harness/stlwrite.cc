// C09 (what is written), C10 (reading it back), C20 (other formats written as binary STL).
#include "stl_file.h"
#include "gen_ssa.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "stl_text_reader.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"

using namespace h;
using std::string;
using std::vector;

static string describe_input(vector<sub::Subtitle> const& s, WriteArgs const& a) { return "fps " + num(a.fps) + " " + a.lc + "\n" + desc(s); }

static void check_header(string const& f, WriteArgs const& a, vector<sub::Subtitle> const& subs, size_t blocks)
{
	auto text = [&](char const* name, size_t at, size_t n, string want) {
		count("header-fields-compared");
		want.resize(n, ' ');
		if (f.substr(at, n) != want) { fail(string("header ") + name, string(name) + " is " + show(f.substr(at, n)) + ", not " + show(want)); }
	};
	auto number = [&](char const* name, size_t at, int n, size_t v) { char b[32]; snprintf(b, sizeof(b), "%0*zu", n, v); text(name, at, n, b); };
	text("CPN", 0, 3, "850");
	text("DFC", 3, 8, a.dfc());
	text("DSC", 11, 1, "0");
	text("CCT", 12, 2, "00");
	text("LC", 14, 2, a.lc);
	text("OPT", 16, 32, a.opt); text("OET", 48, 32, a.oet); text("TPT", 80, 32, a.tpt); text("TET", 112, 32, a.tet);
	text("TN", 144, 32, a.tn); text("TCD", 176, 32, a.tcd); text("SLR", 208, 16, "0000000000000000");
	text("CD", 224, 6, a.cd); text("RD", 230, 6, a.rd);
	number("RN", 236, 2, a.rn);
	number("TNB", 238, 5, blocks);
	number("TNS", 243, 5, subs.size());
	text("TNG", 248, 3, "001");
	size_t longest = 0;
	for (auto const& s: subs) {
		for (auto const& l: s.lines) {
			size_t n = 0;
			for (auto const& b: l.blocks) { n += iso::from_utf8(b.text).size(); }
			longest = std::max(longest, n);
		}
	}
	number("MNC", 251, 2, std::min<size_t>(99, longest));
	text("MNR", 253, 2, "23");
	text("TCS", 255, 1, "1");
	text("TCP", 256, 8, "00000000"); text("TCF", 264, 8, "00000000");
	text("TND", 272, 1, "1"); text("DSN", 273, 1, "1");
	text("CO", 274, 3, a.co); text("PUB", 277, 32, a.pub); text("EN", 309, 32, a.en); text("ECD", 341, 32, a.ecd);
}

// bytes a subtitle's text takes when it is written, roughly
static size_t text_size(sub::Subtitle const& s)
{
	size_t n = 10;
	for (auto const& l: s.lines) { n += 30; for (auto const& b: l.blocks) { n += 4 + 2 * b.text.size(); } }
	return n;
}

static void c09(Rng& r, uint64_t i)
{
	auto const a = gen_args(r);
	SubOpts o;
	o.rate = a.rate();
	if (mix(i) % 100 == 7) { o.max_subs = 300; }
	if (mix(i) % 1000 == 13) { o.max_subs = 3000; }
	vector<GenSub> model;
	auto subs = gen_subtitles(r, o, model);
	input(describe_input(subs, a));
	if (mix(i) % 40 == 11 && !subs.empty()) {
		// as long as a subtitle may be, or a little longer
		int const limit = 241 * 112 - 1;
		int const n = r.pick(vector<int>{ limit, limit - 1, limit + 1, limit + 100, 240 * 112, 112, 111, 113, 223, 224, 225 });
		subs.resize(1); model.resize(1);
		sub::Line l;
		sub::Block b;
		for (int k = 0; k < n; ++k) { b.text += char('a' + r.below(26)); }
		l.blocks.push_back(b);
		l.vertical_position.reference = sub::TOP_OF_SCREEN; l.vertical_position.proportional = 0.5;
		l.horizontal_position.reference = sub::HORIZONTAL_CENTRE_OF_SCREEN;
		subs[0].lines.assign(1, l);
		GenLine gl; gl.row = 11.5; gl.blocks.push_back({ b.text, 0 });
		model[0].lines.assign(1, gl); model[0].jc = 2; model[0].ordered = true;
		if (n > limit) {
			try { write_to_string(subs, a); fail("too-long", "a text of " + std::to_string(n) + " bytes was accepted"); } catch (std::exception&) { count("too-long-refused"); }
			judged(i);
			return;
		}
	} else if (mix(i) % 40 == 12 && !subs.empty()) {
		auto& s = subs[r.below(subs.size())];
		(r.coin() ? s.from : s.to) = sub::Time::from_hms(r.range(256, 100000), r.below(60), r.below(60), r.below(1000));
		try { write_to_string(subs, a); fail("too-late", "a time of 256 hours or more was accepted"); } catch (std::exception&) { count("too-late-refused"); }
		judged(i);
		return;
	}
	if (mix(i) % 800 == 333) {
		// as many subtitles or blocks as the header can count, or a few more
		int const per = r.pick(vector<int>{ 1, 1, 2, 3 });
		int const most = 99999 / per;
		int const n = most + r.pick(vector<int>{ 0, 1, 1, 2, 5, 1000 });
		sub::Subtitle s;
		s.from = sub::Time::from_hms(0, 0, 1, 0); s.to = sub::Time::from_hms(0, 0, 2, 0);
		sub::Line l;
		sub::Block b;
		b.text = string(1 + (per - 1) * 112, 'x');
		l.blocks.push_back(b);
		l.vertical_position.reference = sub::TOP_OF_SCREEN; l.vertical_position.proportional = 0.5;
		l.horizontal_position.reference = sub::HORIZONTAL_CENTRE_OF_SCREEN;
		s.lines.push_back(l);
		string const what = std::to_string(n) + " subtitles of " + std::to_string(per) + " blocks";
		input(what);
		string f;
		bool refused = false;
		try { f = write_to_string(vector<sub::Subtitle>(n, s), a); } catch (std::exception&) { refused = true; }
		judged(what);
		if (n > most) {
			if (!refused) { fail("too-many", what + " were accepted"); }
			count("too-many-refused");
			return;
		}
		if (refused) { fail("refused", what + " were refused"); return; }
		char header[11];
		snprintf(header, sizeof(header), "%05d%05d", n * per, n);
		if (f.size() != 1024 + size_t(n) * per * 128) { fail("size", what + " made a file of " + std::to_string(f.size())); }
		else if (f.substr(238, 10) != header) { fail("header", what + " are counted as " + f.substr(238, 10)); }
		count("as-many-as-possible");
		return;
	}
	string const before = desc(subs);
	string f;
	for (auto const& s: subs) { if (mix(i) % 40 != 11 && text_size(s) > 26000) { count("skipped-too-long"); return; } }
	try { f = write_to_string(subs, a); }
	catch (std::exception& e) { fail("refused", "writing was refused: " + desc_exception(e)); return; }
	if (desc(subs) != before) { fail("input-changed", "writing changed the subtitles"); }
	vector<Parsed> got;
	string const e = parse_blocks(f, a.rate(), got);
	if (!e.empty()) { fail("format", e); return; }
	count("subtitles", subs.size());
	count("blocks", (f.size() - 1024) / 128);
	if (!subs.empty()) { judged(f); }
	if (subs.size() == 1 && f.size() == 1024 + 128) { sample(show(f.substr(0, 373)) + " | " + show(f.substr(1024))); }
	check_header(f, a, subs, (f.size() - 1024) / 128);
	check_subtitles(model, got, a.rate(), true);
	// no spare blocks
	size_t at = 1024;
	for (size_t k = 0; k < got.size(); ++k) {
		string text;
		while (at < f.size()) { string b = f.substr(at, 128); at += 128; text += b.substr(16); if (static_cast<unsigned char>(b[3]) == 0xff) { break; } }
		size_t const used = text.find(char(0x8f)) + 1;
		if ((used + 111) / 112 != text.size() / 112) { fail("spare-blocks", std::to_string(text.size() / 112) + " blocks for " + std::to_string(used) + " bytes of text"); }
	}
}

static WriteArgs args_from(sub::STLBinaryReader const& rd, WriteArgs const& a)
{
	WriteArgs b;
	b.fps = rd.frame_rate;
	b.language = rd.language;
	b.lc = a.lc;
	b.opt = rd.original_programme_title; b.oet = rd.original_episode_title; b.tpt = rd.translated_programme_title; b.tet = rd.translated_episode_title;
	b.tn = rd.translator_name; b.tcd = rd.translator_contact_details; b.cd = rd.creation_date; b.rd = rd.revision_date; b.rn = atoi(rd.revision_number.c_str());
	b.co = rd.country_of_origin; b.pub = rd.publisher; b.en = rd.editor_name; b.ecd = rd.editor_contact_details;
	return b;
}

static sub::STLBinaryReader read_back(string const& f) { std::istringstream s(f); return sub::STLBinaryReader(s); }

// what reading a file with these contents must give
static vector<Exp> expected_back(vector<GenSub> const& model, vector<Parsed> const& got, int rate)
{
	vector<Exp> out;
	int highest = 0;
	for (size_t i = 0; i < model.size(); ++i) {
		auto time = [&](double seconds, int64_t hint) {
			// either side of a tie will do
			int64_t f = static_cast<int64_t>(std::floor(seconds * rate + 0.5));
			if (std::llabs(f - hint) <= 1 && std::fabs(seconds * rate - double(hint)) <= 0.5 + 1e-6) { f = hint; }
			return stl_time(f / rate / 3600, f / rate / 60 % 60, f / rate % 60, f % rate, rate);
		};
		int row = got[i].vp;
		for (size_t k = 0; k < model[i].lines.size(); ++k) {
			auto const e = expected_row(model[i].lines[k]);
			if (k) { row += got[i].rows[k].newlines; }
			auto p = rows_for(model[i].lines[k].row);
			(void) p;
			for (auto const& run: e.runs) {
				Exp x;
				x.text = iso::to_utf8(run.text);
				x.italic = run.italic; x.underline = run.underline;
				x.vline = row; x.vlines = 23; x.vref = int(sub::TOP_OF_SCREEN);
				x.href = model[i].jc == 1 ? int(sub::LEFT_OF_SCREEN) : model[i].jc == 3 ? int(sub::RIGHT_OF_SCREEN) : int(sub::HORIZONTAL_CENTRE_OF_SCREEN);
				x.from = time(model[i].from.seconds, got[i].in);
				x.to = time(model[i].to.seconds, got[i].out);
				out.push_back(x);
			}
			highest = std::max(highest, row);
		}
	}
	if (highest > 23) { count("rows-off-the-screen"); for (auto& e: out) { *e.vline -= highest - 23; } }
	return out;
}

static void c10(Rng& r, uint64_t i)
{
	auto const a = gen_args(r);
	SubOpts o;
	o.rate = a.rate();
	o.clean = true;
	o.repertoire = r.chance(2, 3);
	if (mix(i) % 100 == 7) { o.max_subs = 200; }
	if (mix(i) % 1000 == 13) { o.max_subs = 3000; }
	vector<GenSub> model;
	auto subs = gen_subtitles(r, o, model);
	bool empty_lines = false;
	for (auto const& m: model) { for (auto const& l: m.lines) { if (expected_row(l).runs.empty()) { empty_lines = true; } } }
	if (empty_lines) { count("skipped-without-text"); return; }
	for (auto const& s: subs) { if (text_size(s) > 26000) { count("skipped-too-long"); return; } }
	input(describe_input(subs, a));
	try {
		string const f = write_to_string(subs, a);
		vector<Parsed> got;
		string const e = parse_blocks(f, a.rate(), got);
		if (!e.empty()) { fail("format", e); return; }
		if (!check_subtitles(model, got, a.rate(), true)) { return; }
		auto rd = read_back(f);
		if (!subs.empty()) { judged(f); }
		if (subs.size() == 1 && f.size() < 1400) { sample(describe_input(subs, a)); }
		// text, style, rows and times
		string key;
		auto const want = expected_back(model, got, a.rate());
		string d = compare(want, from_raws(rd.subtitles(), stl_fmt(a.rate())), key);
		if (!d.empty()) { fail("read-back " + key, d); return; }
		count("runs-compared", want.size());
		// the same subtitles and lines, once collected
		auto const c = sub::collect<vector<sub::Subtitle>>(rd.subtitles());
		if (c.size() != subs.size()) { fail("read-back subtitles", std::to_string(c.size()) + " subtitles, not " + std::to_string(subs.size())); return; }
		for (size_t k = 0; k < c.size(); ++k) {
			count("subtitles-compared");
			if (c[k].lines.size() != subs[k].lines.size()) { fail("read-back lines", std::to_string(c[k].lines.size()) + " lines in subtitle " + std::to_string(k) + ", not " + std::to_string(subs[k].lines.size())); return; }
		}
		// header values
		auto padded = [](string s, size_t n) { s.resize(n, ' '); return s; };
		auto field = [&](char const* name, string const& got, string const& want, size_t n) { if (got != padded(want, n)) { fail(string("read-back ") + name, string(name) + " came back as " + show(got) + ", not " + show(want)); } };
		field("OPT", rd.original_programme_title, a.opt, 32); field("OET", rd.original_episode_title, a.oet, 32);
		field("TPT", rd.translated_programme_title, a.tpt, 32); field("TET", rd.translated_episode_title, a.tet, 32);
		field("TN", rd.translator_name, a.tn, 32); field("TCD", rd.translator_contact_details, a.tcd, 32);
		field("CD", rd.creation_date, a.cd, 6); field("RD", rd.revision_date, a.rd, 6); field("CO", rd.country_of_origin, a.co, 3);
		field("PUB", rd.publisher, a.pub, 32); field("EN", rd.editor_name, a.en, 32); field("ECD", rd.editor_contact_details, a.ecd, 32);
		if (atoi(rd.revision_number.c_str()) != a.rn) { fail("read-back RN", "revision " + rd.revision_number + ", not " + std::to_string(a.rn)); }
		if (rd.language != a.language) { fail("read-back LC", "language " + std::to_string(rd.language) + ", not " + std::to_string(a.language)); }
		for (auto const& x: rate_codes) { if (a.dfc() == x.dfc && std::fabs(rd.frame_rate - x.fps) > 1e-3) { fail("read-back DFC", "frame rate " + num(rd.frame_rate)); } }
		if (rd.number_of_subtitles != int(subs.size())) { fail("read-back TNS", std::to_string(rd.number_of_subtitles) + " subtitles declared"); }
		// writing it again
		bool exact = true, on_screen = true;
		// a run that loses all of its text leaves nothing but its codes, which may move
		for (auto const& m: model) { for (auto const& l: m.lines) { for (auto const& b: l.blocks) { if (iso::representable(iso::from_utf8(b.first)).empty()) { count("skipped-dropped-run"); return; } } } }
		for (auto const& m: model) { for (auto const& l: m.lines) { for (auto const& b: l.blocks) { if (!iso::all_representable(iso::from_utf8(b.first))) { exact = false; } } } }
		for (auto const& g: got) { int row = g.vp; for (size_t k = 1; k < g.rows.size(); ++k) { row += g.rows[k].newlines; } if (row > 23) { on_screen = false; } }
		if (!on_screen) { return; }
		string const g = write_to_string(c, args_from(rd, a));
		if (exact) {
			count("written-again-identical");
			if (g != f) { fail("written-again", "writing what was read gives another file: " + diff(f, g)); }
		} else {
			auto rd2 = read_back(g);
			string const k = write_to_string(sub::collect<vector<sub::Subtitle>>(rd2.subtitles()), args_from(rd2, a));
			count("written-thrice-identical");
			if (g != k) { fail("written-again", "writing what was read gives another file: " + diff(g, k)); }
		}
	} catch (std::exception& e) {
		fail("refused", "writing or reading back was refused: " + desc_exception(e));
	}
}

// ---------------------------------------------------------------- C20
static double seconds(sub::Time const& t, bool frames, int rate)
{
	return t.hours() * 3600.0 + t.minutes() * 60 + t.seconds() + (frames ? double(t.frames_at(sub::Rational(rate, 1))) / rate : t.milliseconds() / 1000.0);
}

static void c20(Rng& r, uint64_t)
{
	WriteArgs a;
	a.fps = r.pick(rate_codes).fps;
	vector<sub::RawSubtitle> raw;
	string what;
	int source_rate = 0;
	bool latin = r.chance(3, 4);
	TextOpts to;
	to.max = 40;
	to.huge = r.chance(1, 8);
	to.unicode = !latin;
	switch (r.below(5)) {
	case 0: {
		SrtOpts o; o.max_hours = 200; string f = o.text.forbid; o.text = to; o.text.forbid = f; o.sequential = r.coin();
		auto d = gen_srt(r, o);
		input(d.bytes); what = "srt";
		raw = sub::SubripReader(d.bytes).subtitles();
		break;
	}
	case 1: {
		VttOpts o; o.text = to; o.sequential = true;
		auto d = gen_vtt(r, o);
		input(d.bytes); what = "vtt";
		raw = sub::WebVTTReader(d.bytes).subtitles();
		break;
	}
	case 2: {
		SsaOpts o; string f = o.text.forbid; o.text = to; o.text.forbid = f; o.text.edges = SsaOpts().text.edges; o.sequential = true;
		auto d = gen_ssa(r, o);
		input(d.bytes); what = "ssa";
		raw = sub::SSAReader(d.bytes).subtitles();
		break;
	}
	case 3: {
		StlBinOpts o; o.increasing = true;
		auto d = gen_stl_bin(r, o);
		input(show(d.bytes, 100000)); what = "stl";
		raw = read_back(d.bytes).subtitles();
		source_rate = d.rate;
		break;
	}
	default: {
		StlTextOpts o;
		auto d = gen_stl_text(r, o);
		input(d.bytes);
		QuietCout q;
		std::istringstream s(d.bytes);
		auto const c = sub::collect<vector<sub::Subtitle>>(sub::STLTextReader(s).subtitles());
		if (c.empty()) { return; }
		judged(d.bytes);
		count("unrated-tried");
		try { write_to_string(c, a); fail("unrated-accepted", "subtitles without a frame rate were written"); }
		catch (std::exception&) { count("unrated-refused"); }
		return;
	}
	}
	auto const subs = sub::collect<vector<sub::Subtitle>>(raw);
	vector<GenSub> model;
	for (auto const& s: subs) {
		if (text_size(s) > 26000) { count("skipped-too-long"); return; }
		GenSub g;
		g.from.seconds = seconds(s.from, source_rate, source_rate);
		g.to.seconds = seconds(s.to, source_rate, source_rate);
		if (g.from.seconds >= 256 * 3600 - 1 || g.to.seconds >= 256 * 3600 - 1) { count("skipped-too-late"); return; }
		auto const ref = s.lines.empty() ? sub::HORIZONTAL_CENTRE_OF_SCREEN : s.lines.front().horizontal_position.reference;
		g.jc = ref == sub::LEFT_OF_SCREEN ? 1 : ref == sub::RIGHT_OF_SCREEN ? 3 : 2;
		for (auto const& l: s.lines) {
			GenLine gl;
			for (auto const& b: l.blocks) { gl.blocks.push_back({ b.text, (b.italic ? 1 : 0) | (b.underline ? 2 : 0) }); }
			g.lines.push_back(gl);
		}
		model.push_back(g);
	}
	// every line of the source is one line here
	size_t bytes = 0, raw_bytes = 0;
	for (auto const& m: model) { for (auto const& l: m.lines) { for (auto const& b: l.blocks) { bytes += b.first.size(); } } }
	for (auto const& i: raw) { raw_bytes += i.text.size(); }
	if (bytes != raw_bytes) { fail("collected", "collecting lost text"); return; }
	try {
		string const f = write_to_string(subs, a);
		vector<Parsed> got;
		string const e = parse_blocks(f, a.rate(), got);
		if (!e.empty()) { fail("format", what + ": " + e); return; }
		if (!subs.empty()) { judged(f); }
		count(what + "-written");
		if (f.size() < 1500 && !subs.empty()) { sample(what + "\n" + describe_input(subs, a)); }
		if (!check_subtitles(model, got, a.rate(), false)) { return; }
		// and read back: the lines in order, each on its own row
		auto const back = merge(from_raws(read_back(f).subtitles(), stl_fmt(a.rate())));
		vector<Exp> want;
		int highest = 0;
		for (size_t i = 0; i < model.size(); ++i) {
			int row = got[i].vp;
			for (size_t k = 0; k < got[i].rows.size(); ++k) {
				row += got[i].rows[k].newlines;
				highest = std::max(highest, row);
				for (auto const& run: got[i].rows[k].runs) {
					Exp x;
					x.text = iso::to_utf8(run.text); x.italic = run.italic; x.underline = run.underline;
					x.vline = row; x.vlines = 23; x.vref = int(sub::TOP_OF_SCREEN);
					x.href = model[i].jc == 1 ? int(sub::LEFT_OF_SCREEN) : model[i].jc == 3 ? int(sub::RIGHT_OF_SCREEN) : int(sub::HORIZONTAL_CENTRE_OF_SCREEN);
					auto tc = [&](int64_t v) { int q = a.rate(); return stl_time(v / q / 3600, v / q / 60 % 60, v / q % 60, v % q, q); };
					x.from = tc(got[i].in); x.to = tc(got[i].out);
					want.push_back(x);
				}
			}
		}
		if (highest > 23) { for (auto& x: want) { *x.vline -= highest - 23; } }
		string key;
		string d = compare(want, back, key);
		if (!d.empty()) { fail("read-back " + key, what + ": " + d); }
	} catch (std::exception& e) {
		fail("refused", what + ": writing or reading back was refused: " + desc_exception(e));
	}
}

int main(int argc, char** argv)
{
	string mode;
	for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--mode")) { mode = argv[i + 1]; } }
	if (mode == "C09") { return run(argc, argv, mode, c09); }
	if (mode == "C10") { return run(argc, argv, mode, c10); }
	if (mode == "C20") { return run(argc, argv, mode, c20); }
	return 3;
}
