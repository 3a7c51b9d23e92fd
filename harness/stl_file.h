// An independent parser of written binary STL files, generated subtitles to write, and the comparison.
#ifndef VERIF_STL_FILE_H
#define VERIF_STL_FILE_H

#include "gen_stlbin.h"
#include "stl_binary_writer.h"
#include <boost/filesystem.hpp>

namespace h {

struct WriteArgs
{
	float fps = 25;
	sub::Language language = sub::LANGUAGE_ENGLISH;
	string lc = "09";
	string opt, oet, tpt, tet, tn, tcd, cd = "200101", rd = "200102", co = "GBR", pub, en, ecd;
	int rn = 0;
	string dfc() const { for (auto const& c: rate_codes) { if (std::fabs(c.fps - fps) < 1e-3) { return c.dfc; } } return "STL25.01"; }
	int rate() const { for (auto const& c: rate_codes) { if (dfc() == c.dfc) { return c.nominal; } } return 25; }
};

inline void write(vector<sub::Subtitle> const& s, WriteArgs const& a, string const& path)
{
	sub::write_stl_binary(s, a.fps, a.language, a.opt, a.oet, a.tpt, a.tet, a.tn, a.tcd, a.cd, a.rd, a.rn, a.co, a.pub, a.en, a.ecd, path);
}

inline string write_to_string(vector<sub::Subtitle> const& s, WriteArgs const& a)
{
	string const path = st().scratch + "/w.stl";
	// there may be something there already
	uint64_t const k = mix(st().index * 31 + s.size());
	switch (k % 8) {
	case 0: write_file(path, string(1 + k / 8 % 200000, 'x')); break;
	case 1: write_file(path, string(1 + k / 8 % 1000, '\0')); break;
	case 2: write_file(path, "850STL25.01" + string(1013 + 128 * (k / 8 % 60), '2')); break;
	default: break;
	}
	write(s, a, path);
	string b = read_file(path);
	unlink(path.c_str());
	return b;
}

inline WriteArgs gen_args(Rng& r)
{
	WriteArgs a;
	static const float odd[] = { 29.97f, 50, 60, 48, 12.5f, 59.94f, 15 };
	a.fps = r.chance(1, 10) ? r.pick(odd) : r.pick(rate_codes).fps;
	auto const& l = r.pick(language_codes);
	a.language = l.value;
	a.lc = l.code;
	auto text = [&](size_t max) {
		string s;
		switch (r.below(4)) {
		case 0: return s;
		case 1: for (size_t i = 0; i < max; ++i) { s += char(r.range(33, 126)); } return s;
		case 2: for (size_t i = r.below(max + 1); i; --i) { s += char(r.range(1, 255)); } return s;
		default: for (size_t i = r.below(max + 1); i; --i) { s += char(r.range(32, 126)); } return s;
		}
	};
	a.opt = text(32); a.oet = text(32); a.tpt = text(32); a.tet = text(32); a.tn = text(32); a.tcd = text(32);
	a.pub = text(32); a.en = text(32); a.ecd = text(32);
	auto digits = [&](int n) { string s; for (int i = 0; i < n; ++i) { s += char('0' + r.below(10)); } return s; };
	a.cd = digits(6); a.rd = digits(6);
	a.rn = r.chance(1, 4) ? r.pick(vector<int>{ 0, 9, 10, 99 }) : r.below(100);
	a.co = r.pick(vector<string>{ "GBR", "FRA", "XYZ", "a b" });
	return a;
}

// ---------------------------------------------------------------- the parser
struct Run { vector<uint32_t> text; bool italic = false, underline = false; };
struct Row { int newlines = 0; vector<Run> runs; };
struct Parsed { int vp = 0, jc = 0; int64_t in = 0, out = 0; vector<Row> rows; };

inline void add_run(Row& row, vector<uint32_t> const& t, bool italic, bool underline)
{
	if (t.empty()) { return; }
	if (!row.runs.empty() && row.runs.back().italic == italic && row.runs.back().underline == underline) {
		row.runs.back().text.insert(row.runs.back().text.end(), t.begin(), t.end());
		return;
	}
	Run x;
	x.text = t; x.italic = italic; x.underline = underline;
	row.runs.push_back(x);
}

inline string desc(Row const& r)
{
	string s;
	for (auto const& i: r.runs) { s += string("(") + (i.italic ? "i" : "") + (i.underline ? "u" : "") + ")[" + show(iso::to_utf8(i.text), 300) + "]"; }
	return s;
}
inline bool same(Row const& a, Row const& b)
{
	if (a.runs.size() != b.runs.size()) { return false; }
	for (size_t i = 0; i < a.runs.size(); ++i) {
		if (a.runs[i].text != b.runs[i].text || a.runs[i].italic != b.runs[i].italic || a.runs[i].underline != b.runs[i].underline) { return false; }
	}
	return true;
}

// returns an error, or ""
inline string parse_text(string const& t, Parsed& p)
{
	bool italic = false, underline = false;
	p.rows.assign(1, Row());
	string run;
	auto flush = [&]() { add_run(p.rows.back(), iso::decode(run), italic, underline); run.clear(); };
	size_t i = 0;
	for (; i < t.size(); ++i) {
		unsigned char const c = t[i];
		if (c == 0x8f) { break; }
		if (c == 0x8a) {
			flush();
			if (i > 0 && static_cast<unsigned char>(t[i - 1]) == 0x8a) { ++p.rows.back().newlines; }
			else { p.rows.push_back(Row()); p.rows.back().newlines = 1; }
			continue;
		}
		switch (c) {
		case 0x80: flush(); if (italic) { return "italic is turned on twice"; } italic = true; continue;
		case 0x81: flush(); if (!italic) { return "italic is turned off when it is not on"; } italic = false; continue;
		case 0x82: flush(); if (underline) { return "underline is turned on twice"; } underline = true; continue;
		case 0x83: flush(); if (!underline) { return "underline is turned off when it is not on"; } underline = false; continue;
		}
		if (c >= 0xc1 && c <= 0xcf) {
			if (i + 1 >= t.size() || !iso::tables().pair.count({ c, static_cast<unsigned char>(t[i + 1]) })) { return "an accent is followed by no letter it goes with"; }
			run += t[i];
			run += t[i + 1];
			++i;
			continue;
		}
		if (!iso::single(c)) { char b[64]; snprintf(b, sizeof(b), "byte %02x is not ISO 6937", c); return b; }
		run += t[i];
	}
	flush();
	if (italic || underline) { return "italic or underline is not turned off again"; }
	if (i == t.size()) { return "the text does not end with unused space"; }
	for (; i < t.size(); ++i) { if (static_cast<unsigned char>(t[i]) != 0x8f) { return "there is text after unused space"; } }
	return "";
}

inline string parse_blocks(string const& f, int rate, vector<Parsed>& subs)
{
	if (f.size() < 1024 || (f.size() - 1024) % 128) { return "the file is " + std::to_string(f.size()) + " bytes long"; }
	string text;
	int next = 0;
	string first;
	for (size_t at = 1024; at < f.size(); at += 128) {
		string const b = f.substr(at, 128);
		auto u = [&](int i) { return static_cast<unsigned char>(b[i]); };
		string const where = "block " + std::to_string((at - 1024) / 128) + ": ";
		if (u(15) != 0) { return where + "the comment flag is " + std::to_string(u(15)); }
		if (u(4) != 0) { return where + "the cumulative status is " + std::to_string(u(4)); }
		if (next == 0) {
			Parsed p;
			auto tc = [&](int i, int64_t& t) -> bool {
				if (u(i + 1) > 59 || u(i + 2) > 59 || u(i + 3) >= rate) { return false; }
				t = ((int64_t(u(i)) * 60 + u(i + 1)) * 60 + u(i + 2)) * rate + u(i + 3);
				return true;
			};
			if (!tc(5, p.in) || !tc(9, p.out)) { return where + "invalid time code " + show(b.substr(5, 8)); }
			p.vp = u(13);
			p.jc = u(14);
			if (p.jc < 1 || p.jc > 3) { return where + "the justification is " + std::to_string(p.jc); }
			if (p.vp > 23) { return where + "the vertical position is " + std::to_string(p.vp); }
			subs.push_back(p);
			first = b;
		} else if (b.substr(0, 3) != first.substr(0, 3) || b.substr(5, 8) != first.substr(5, 8)) {
			return where + "an extension block does not belong to the block before it";
		}
		text += b.substr(16);
		if (u(3) == 0xff) {
			string e = parse_text(text, subs.back());
			if (!e.empty()) { return where + e; }
			// no more blocks than the text needs
			text.clear();
			next = 0;
		} else {
			if (u(3) != next) { return where + "extension block number " + std::to_string(u(3)) + " where " + std::to_string(next) + " was due"; }
			if (u(3) > 0xef) { return where + "reserved extension block number " + std::to_string(u(3)); }
			if (b.find(char(0x8f), 16) != string::npos) { return where + "unused space before the last block of a subtitle"; }
			++next;
		}
	}
	if (next) { return "the last subtitle has no last block"; }
	return "";
}

// ---------------------------------------------------------------- subtitles
struct GenTime { sub::Time t; double seconds = 0; };

struct GenLine
{
	double row = 0;        // exact place, in rows
	vector<std::pair<string, int>> blocks;   // text; 1 italic, 2 underline
};

struct GenSub
{
	GenTime from, to;
	int jc = 2;
	vector<GenLine> lines;
	bool ordered = true;      // lines are from top to bottom
};

struct SubOpts
{
	int max_subs = 6;
	bool clean = false;       // that reading and writing again must not change
	bool repertoire = false;  // only text that ISO 6937 has
	int rate = 25;
};

inline GenTime gen_time(Rng& r, int64_t seconds)
{
	GenTime g;
	static const int rates[] = { 24, 25, 30, 48, 50, 60, 1000 };
	switch (r.below(4)) {
	case 0: {
		int rate = r.pick(rates);
		int f = r.chance(1, 4) ? rate - 1 : r.below(rate);
		g.t = sub::Time::from_hmsf(seconds / 3600, seconds / 60 % 60, seconds % 60, f, sub::Rational(rate, 1));
		g.seconds = seconds + double(f) / rate;
		break;
	}
	default: {
		int ms = r.chance(1, 4) ? r.pick(vector<int>{ 0, 1, 999, 998, 980, 979, 981, 500, 20, 40, 21, 958, 959, 984, 983 }) : r.below(1000);
		g.t = sub::Time::from_hms(seconds / 3600, seconds / 60 % 60, seconds % 60, ms);
		g.seconds = seconds + ms / 1000.0;
	}
	}
	return g;
}

inline vector<sub::Subtitle> gen_subtitles(Rng& r, SubOpts const& o, vector<GenSub>& model)
{
	vector<sub::Subtitle> out;
	int const n = r.chance(1, 20) ? 0 : 1 + r.skewed(o.max_subs - 1);
	int64_t clock = r.below(3600);
	for (int i = 0; i < n; ++i) {
		if (!o.clean && !out.empty() && r.chance(1, 12)) {
			// the same again
			out.push_back(sub::Subtitle(out.back()));
			model.push_back(GenSub(model.back()));
			continue;
		}
		sub::Subtitle s;
		GenSub g;
		if (o.clean || r.chance(3, 4)) {
			clock += r.range(2, 30);
			g.from = gen_time(r, clock);
			clock += r.range(2, 30);
			g.to = gen_time(r, clock);
		} else {
			g.from = gen_time(r, r.chance(1, 8) ? 255 * 3600 + r.below(3599) : r.below(256 * 3600 - 1));
			g.to = gen_time(r, r.chance(1, 4) ? r.pick(vector<int>{ 59, 3599, 35999, 86399, 0, 256 * 3600 - 2, 255 * 3600, 128 * 3600 }) : r.below(256 * 3600 - 1));
		}
		s.from = g.from.t;
		s.to = g.to.t;
		auto const href = static_cast<sub::HorizontalReference>(r.below(3));
		g.jc = href == sub::LEFT_OF_SCREEN ? 1 : href == sub::RIGHT_OF_SCREEN ? 3 : 2;
		int const lines = o.clean ? 1 + r.skewed(3) : r.chance(1, 30) ? 0 : 1 + r.skewed(4);
		int const kind = r.below(8);
		int const total = r.chance(1, 2) ? 23 : r.range(8, 40);
		double top = r.unit() * (o.clean ? 0.5 : 1.0);
		if (r.chance(1, 10)) { top = 0; }
		int line_only = r.below(o.clean ? 10 : 24);
		bool const wordy = r.chance(1, 5);
		bool const disorder = !o.clean && r.chance(1, 8);
		int line_number = static_cast<int>(top * total);
		for (int k = 0; k < lines; ++k) {
			sub::Line l;
			GenLine gl;
			l.horizontal_position.reference = k == 0 || o.clean ? href : static_cast<sub::HorizontalReference>(r.below(3));
			auto& v = l.vertical_position;
			double frac = top;
			switch (kind) {
			case 0: v.reference = sub::TOP_OF_SCREEN; v.proportional = float(top); break;
			case 1: v.reference = sub::VERTICAL_CENTRE_OF_SCREEN; v.proportional = float(top - 0.5); break;
			case 2: v.reference = sub::BOTTOM_OF_SCREEN; v.proportional = float(1 - top); break;
			case 3: v.proportional = float(top); break;
			case 4: case 5: case 6:
				v.lines = total;
				if (kind == 4) { v.reference = sub::TOP_OF_SCREEN; v.line = line_number; frac = double(line_number) / total; }
				else if (kind == 5) { v.reference = sub::BOTTOM_OF_SCREEN; v.line = total - line_number; frac = 1 - double(*v.line) / total; }
				else { v.reference = sub::VERTICAL_CENTRE_OF_SCREEN; v.line = line_number - total / 2; frac = 0.5 + double(*v.line) / total; }
				break;
			default: v.reference = sub::TOP_OF_SUBTITLE; v.line = line_only; frac = line_only / 23.0; break;
			}
			gl.row = frac * 23;
			int const blocks = o.clean ? 1 + r.skewed(3) : r.chance(1, 12) ? 0 : 1 + r.skewed(4);
			for (int b = 0; b < blocks; ++b) {
				sub::Block x;
				size_t const max = wordy ? 120 : 25;
				TextOpts to;
				to.max = max;
				to.huge = !o.clean && r.chance(1, 10);
				x.text = !o.clean && r.chance(1, 15) ? string() : (o.repertoire || r.chance(1, 2)) ? iso::gen_repertoire_text(r, max) : gen_text(r, to);
				if (!o.repertoire && r.chance(1, 10)) { x.text += "e" + utf8(r.pick(iso::accents).mark) + "x"; }
				int const style = r.chance(1, 2) ? 0 : r.below(4);
				x.italic = style & 1;
				x.underline = style & 2;
				x.bold = r.coin();
				l.blocks.push_back(x);
				gl.blocks.push_back({ x.text, style });
			}
			s.lines.push_back(l);
			g.lines.push_back(gl);
			top = std::min(o.clean ? 0.85 : 1.0, top + (r.chance(1, 8) ? 0 : r.unit() * (o.clean ? 0.1 : 0.3)));
			line_number = std::min<int>(total, line_number + (o.clean ? r.range(0, 1) : r.below(4)));
			line_only += o.clean ? r.range(1, 2) : r.range(0, 3);
			if (disorder) { top = r.unit(); line_number = r.below(total + 1); line_only = r.below(24); }
		}
		for (size_t k = 1; k < g.lines.size(); ++k) { if (g.lines[k].row < g.lines[k - 1].row - 1e-6) { g.ordered = false; } }
		out.push_back(s);
		model.push_back(g);
	}
	return out;
}

// the rows a place may be rounded to
inline std::pair<int, int> rows_for(double x)
{
	auto clamp = [](double v) { return static_cast<int>(std::min(23.0, std::max(0.0, v))); };
	return { clamp(std::floor(x + 0.5 - 1e-3)), clamp(std::floor(x + 0.5 + 1e-3)) };
}

inline Row expected_row(GenLine const& l)
{
	Row row;
	for (auto const& b: l.blocks) { add_run(row, iso::representable(iso::from_utf8(b.first)), b.second & 1, b.second & 2); }
	return row;
}

// what was written against what was asked for; rows: check the places of lines exactly
inline bool check_subtitles(vector<GenSub> const& want, vector<Parsed> const& got, int rate, bool places)
{
	if (want.size() != got.size()) { fail("number-of-subtitles", std::to_string(got.size()) + " subtitles were written, not " + std::to_string(want.size())); return false; }
	for (size_t i = 0; i < want.size(); ++i) {
		auto const& w = want[i];
		auto const& g = got[i];
		string const where = "subtitle " + std::to_string(i) + ": ";
		auto close = [&](double seconds, int64_t frames) { return std::fabs(seconds * rate - double(frames)) <= 0.5 + 1e-6; };
		if (!close(w.from.seconds, g.in)) { fail("time-in", where + "starts at " + num(w.from.seconds) + " s but the time code is frame " + std::to_string(g.in) + " at " + std::to_string(rate)); return false; }
		if (!close(w.to.seconds, g.out)) { fail("time-out", where + "ends at " + num(w.to.seconds) + " s but the time code is frame " + std::to_string(g.out) + " at " + std::to_string(rate)); return false; }
		if (g.jc != w.jc && !w.lines.empty()) { fail("justification", where + "justification " + std::to_string(g.jc) + ", not " + std::to_string(w.jc)); return false; }
		size_t const rows = std::max<size_t>(1, w.lines.size());
		if (places && !w.lines.empty()) {
			int lo = 99, hi = 99;
			for (auto const& l: w.lines) { auto p = rows_for(l.row); lo = std::min(lo, p.first); hi = std::min(hi, p.second); }
			if (g.vp < lo || g.vp > hi) { fail("top-row", where + "vertical position " + std::to_string(g.vp) + ", not " + std::to_string(lo)); return false; }
		}
		// the parser cannot tell an empty line from spacing, so line up by what is there
		bool empty = false;
		for (auto const& l: w.lines) { if (expected_row(l).runs.empty()) { empty = true; } }
		if (empty) {
			vector<Row> a, b;
			for (auto const& l: w.lines) { if (!expected_row(l).runs.empty()) { a.push_back(expected_row(l)); } }
			for (auto const& l: g.rows) { if (!l.runs.empty()) { b.push_back(l); } }
			bool ok = a.size() == b.size();
			for (size_t k = 0; ok && k < a.size(); ++k) { ok = same(a[k], b[k]); }
			if (!ok) { fail("text", where + "text differs (with empty lines)"); return false; }
			count("subtitles-with-empty-lines");
			if (places && w.ordered) {
				vector<int> rows;
				int at = g.vp;
				for (size_t k = 0; k < g.rows.size(); ++k) { at += k ? g.rows[k].newlines : 0; if (!g.rows[k].runs.empty()) { rows.push_back(at); } }
				int lo = -1, hi = -1;
				size_t n = 0;
				for (auto const& l: w.lines) {
					auto p = rows_for(l.row);
					lo = std::max(p.first, lo + 1);
					hi = std::max(p.second, hi + 1);
					if (expected_row(l).runs.empty()) { continue; }
					if (rows[n] < lo || rows[n] > hi) { fail("row", where + "text is on row " + std::to_string(rows[n]) + ", not " + std::to_string(lo)); return false; }
					++n;
				}
			}
			continue;
		}
		if (g.rows.size() != rows) { fail("rows", where + std::to_string(g.rows.size()) + " rows of text, not " + std::to_string(rows)); return false; }
		int last = g.vp;
		for (size_t k = 0; k < w.lines.size(); ++k) {
			count("lines-compared");
			auto const e = expected_row(w.lines[k]);
			if (!same(e, g.rows[k])) { fail("text", where + "line " + std::to_string(k) + " was written as " + desc(g.rows[k]) + ", not " + desc(e)); return false; }
			if (k && g.rows[k].newlines < 1) { fail("new-lines", where + "no new-line code before line " + std::to_string(k)); return false; }
			if (places && w.ordered) {
				int const here = last + (k ? g.rows[k].newlines : 0);
				auto p = rows_for(w.lines[k].row);
				int const lo = std::max(p.first, k ? last + 1 : 0), hi = std::max(p.second, k ? last + 1 : 0);
				if (here < lo || here > hi) { fail("row", where + "line " + std::to_string(k) + " is on row " + std::to_string(here) + ", not " + std::to_string(lo)); return false; }
				last = here;
			}
		}
	}
	return true;
}

}

#endif
