// Generator of SSA/ASS scripts together with what reading them must yield.
#ifndef VERIF_GEN_SSA_H
#define VERIF_GEN_SSA_H

#include "gen.h"

namespace h {

struct SsaOpts
{
	TextOpts text;
	int max_events = 8;
	bool layout = true;
	bool position_heavy = false;
	bool sequential = false;
	bool no_overrides = false;
	SsaOpts() { text.forbid = "{\\"; text.edges = false; }
};

struct SsaStyle
{
	optional<string> font;
	double size = 72;
	Col primary;
	optional<Col> back;
	bool bold = false, italic = false, underline = false;
	bool shadow = false;
	int align = 2;
	int ml = 0, mr = 0, mv = 0;
};

inline int ssa_href(int an) {
	static const int v[] = { int(sub::LEFT_OF_SCREEN), int(sub::HORIZONTAL_CENTRE_OF_SCREEN), int(sub::RIGHT_OF_SCREEN) };
	return v[(an - 1) % 3];
}
inline int ssa_vref(int an) {
	static const int v[] = { int(sub::BOTTOM_OF_SCREEN), int(sub::VERTICAL_CENTRE_OF_SCREEN), int(sub::TOP_OF_SCREEN) };
	return v[(an - 1) / 3];
}

inline string ssa_colour(Rng& r, Col& c, bool integers)
{
	int cr = r.below(256), cg = r.below(256), cb = r.below(256);
	if (r.chance(1, 4)) { cr = r.coin() * 255; cg = r.coin() * 255; cb = r.coin() * 255; }
	c.r = cr / 255.0; c.g = cg / 255.0; c.b = cb / 255.0;
	if (integers && r.chance(1, 5)) { return std::to_string(cb << 16 | cg << 8 | cr); }
	string a = r.coin() ? hex2(r, r.below(256)) : "";
	return "&H" + a + hex2(r, cb) + hex2(r, cg) + hex2(r, cr);
}

inline string join(vector<string> const& v, string const& sep)
{
	string o;
	for (size_t i = 0; i < v.size(); ++i) { o += (i ? sep : "") + v[i]; }
	return o;
}

template <class T> void shuffle(Rng& r, vector<T>& v) { for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[r.below(i)]); } }

inline string padded_zero(Rng& r, int v)
{
	if (v == 0) { return r.pick(vector<string>{ "0", "0", "0000", "00" }); }
	string s = std::to_string(v);
	return r.chance(1, 3) && s.size() < 4 ? string(4 - s.size(), '0') + s : s;
}

inline TextDoc gen_ssa(Rng& r, SsaOpts const& o)
{
	TextDoc d;
	auto junk = [&]() {
		if (!o.layout || !r.chance(1, 6)) { return; }
		switch (r.below(3)) {
		case 0: d.lines.push_back(""); break;
		case 1: d.lines.push_back("; Dialogue: 0,0:00:00.00,0:00:01.00,x,y,z"); break;
		default: d.lines.push_back(";" + gen_text(r, o.text)); break;
		}
	};
	auto other_section = [&]() {
		if (!o.layout || !r.chance(1, 5)) { return; }
		d.features |= 1;
		d.lines.push_back(r.pick(vector<string>{ "[Fonts]", "[Graphics]", "[Aegisub Project Garbage]", "[Aegisub Extradata]" }));
		for (int i = r.below(4); i; --i) {
			d.lines.push_back(r.pick(vector<string>{ "fontname: arial.ttf", "M3A%T(#A5&", "Last Style Storage: Default", "Dialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,never", "PlayResX: 7", "no colon here", "Style: Default,Nope,1" }));
		}
	};

	int rx = 288, ry = 288;
	d.lines.push_back("[Script Info]");
	junk();
	if (o.layout && r.coin()) { d.lines.push_back("Title: " + gen_text(r, o.text)); }
	d.lines.push_back("ScriptType: v4.00+");
	static const int sizes[][2] = { { 288, 288 }, { 384, 288 }, { 640, 480 }, { 1280, 720 }, { 1920, 1080 }, { 3840, 2160 }, { 720, 576 }, { 100, 100 } };
	// the resolution may also be given after the styles
	vector<string> late;
	bool const is_late = o.layout && r.chance(1, 10);
	if (r.chance(4, 5)) {
		auto s = r.pick(sizes);
		rx = s[0]; ry = s[1];
		if (r.chance(1, 4)) { rx = r.range(50, 5000); ry = r.range(50, 5000); }
		if (r.chance(7, 8)) { (is_late ? late : d.lines).push_back("PlayResX: " + std::to_string(rx)); } else { rx = 288; }
		junk();
		if (r.chance(7, 8)) { (is_late ? late : d.lines).push_back("PlayResY:" + string(r.coin(), ' ') + std::to_string(ry)); } else { ry = 288; }
	}
	if (o.layout && r.coin()) { d.lines.push_back("WrapStyle: 0"); }
	junk();
	other_section();

	// styles
	std::map<string, SsaStyle> styles;
	vector<string> names = { "Default", "Main", "Top sign", "S1", "It\xc3\xa1lico", "default" };
	vector<string> const all_cols = { "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline",
		"StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding" };
	vector<string> cols;
	auto choose_cols = [&]() {
	cols = all_cols;
	if (r.chance(1, 3)) { shuffle(r, cols); }
	if (r.chance(1, 4)) { for (int i = r.range(1, 8); i; --i) { size_t k = r.below(cols.size()); if (cols[k] != "Name") { cols.erase(cols.begin() + k); } } }
	};
	auto has = [&](string c) { return std::find(cols.begin(), cols.end(), c) != cols.end(); };
	bool const with_styles = r.chance(9, 10);
	// sometimes in two sections, each with columns of its own
	for (int sections = !with_styles ? 0 : o.layout && r.chance(1, 8) ? 2 : 1; sections; --sections) {
		choose_cols();
		bool const v4 = r.chance(1, 4);
		d.lines.push_back(v4 ? "[V4 Styles]" : "[V4+ Styles]");
		d.lines.push_back("Format: " + join(cols, r.coin() ? ", " : ","));
		for (int n = 1 + r.skewed(5); n; --n) {
			junk();
			string const name = r.pick(names);
			SsaStyle s;
			std::map<string, string> v;
			v["Name"] = name;
			string f = r.pick(vector<string>{ "Arial", "Times New Roman", "H\xc3\xa9lv\xc3\xa9tica", "Foo-Bar_3" });
			v["Fontname"] = f; if (has("Fontname")) { s.font = f; }
			int const size = r.chance(3, 4) ? r.range(10, 90) : r.range(1, 400);
			v["Fontsize"] = std::to_string(size); if (has("Fontsize")) { s.size = size; }
			if (r.chance(1, 6)) { int const tenths = r.range(1, 99); char b[32]; snprintf(b, sizeof(b), "%d.%02d", size, tenths); v["Fontsize"] = b; if (has("Fontsize")) { s.size = size + tenths / 100.0; } }
			Col c;
			v["PrimaryColour"] = ssa_colour(r, c, true); if (has("PrimaryColour")) { s.primary = c; }
			v["SecondaryColour"] = ssa_colour(r, c, true);
			v["OutlineColour"] = ssa_colour(r, c, true);
			v["BackColour"] = ssa_colour(r, c, true); if (has("BackColour")) { s.back = c; }
			auto flag = [&](string k, bool& b) { bool x = r.coin(); v[k] = x ? "-1" : "0"; if (has(k)) { b = x; } };
			flag("Bold", s.bold); flag("Italic", s.italic); flag("Underline", s.underline);
			v["StrikeOut"] = r.coin() ? "-1" : "0";
			bool sh = r.coin();
			v["BorderStyle"] = sh ? "1" : "3"; if (has("BorderStyle")) { s.shadow = sh; }
			int const al = r.range(1, 9);
			// in V4 the top has 4 added and the middle 8
			v["Alignment"] = std::to_string(!v4 || al <= 3 ? al : al <= 6 ? al - 3 + 8 : al - 6 + 4); if (has("Alignment")) { s.align = al; }
			auto margin = [&](string k, int& m) { int x = r.chance(1, 4) ? 0 : r.range(0, 120); v[k] = padded_zero(r, x); if (has(k)) { m = x; } };
			margin("MarginL", s.ml); margin("MarginR", s.mr); margin("MarginV", s.mv);
			vector<string> vals;
			for (auto const& k: cols) { vals.push_back(v.count(k) ? v[k] : r.pick(vector<string>{ "0", "100", "2", "1.5" })); }
			d.lines.push_back(string("Style:") + (r.coin() ? " " : "") + join(vals, r.chance(1, 5) ? ", " : ","));
			styles[name] = s;
		}
		other_section();
	}

	if (!late.empty()) {
		d.lines.push_back("[Script Info]");
		d.lines.insert(d.lines.end(), late.begin(), late.end());
	}

	// events
	auto ehas_in = [](vector<string> const& v, string const& c) { return std::find(v.begin(), v.end(), c) != v.end(); };
	vector<string> ecols;
	auto ehas = [&](string c) { return ehas_in(ecols, c); };
	auto events_header = [&]() {
	d.lines.push_back("[Events]");
	ecols = { "Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect" };
	if (r.chance(1, 3)) { shuffle(r, ecols); }
	if (r.chance(1, 4)) { for (int i = r.range(1, 4); i; --i) { size_t k = r.below(ecols.size()); if (ecols[k] != "Start" && ecols[k] != "End") { ecols.erase(ecols.begin() + k); } } }
	// the style comes before the margins that override it
	{
		auto s = std::find(ecols.begin(), ecols.end(), "Style");
		if (s != ecols.end()) {
			ecols.erase(s);
			size_t first = ecols.size();
			for (size_t i = 0; i < ecols.size(); ++i) { if (ecols[i].substr(0, 6) == "Margin") { first = std::min(first, i); } }
			ecols.insert(ecols.begin() + r.below(first + 1), "Style");
		}
	}
	ecols.push_back("Text");
	d.lines.push_back("Format: " + join(ecols, r.coin() ? ", " : ","));
	};
	events_header();

	int const events = 1 + r.skewed(o.max_events - 1);
	int64_t seq = 0;
	for (int n = 0; n < events; ++n) {
		junk();
		if (o.layout && n && r.chance(1, 16)) { other_section(); events_header(); d.features |= 256; }
		if (o.layout && r.chance(1, 6)) {
			d.features |= 2;
			d.lines.push_back(r.pick(vector<string>{ "Comment: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,never", "Picture: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,x.png", "Sound: bang", "Command: x", "Movie:" }));
			continue;
		}
		++d.cues;
		size_t const first_exp = d.exp.size();
		int64_t from = gen_ms(r, 100) / 10 * 10, to = gen_ms(r, 100) / 10 * 10;
		if (o.sequential) { from = seq + r.range(1, 500) * 10; to = from + r.range(50, 800) * 10; seq = to; }
		auto stamp = [&](int64_t ms) {
			char b[64];
			snprintf(b, sizeof(b), r.chance(5, 6) ? "%d:%02d:%02d.%02d" : "%02d:%02d:%02d.%02d", int(ms / 3600000), int(ms / 60000 % 60), int(ms / 1000 % 60), int(ms / 10 % 100));
			return string(b);
		};
		std::map<string, string> v;
		v["Layer"] = r.pick(vector<string>{ "0", "1", "Marked=0" });
		v["Start"] = stamp(from);
		v["End"] = stamp(to);
		v["Name"] = r.coin() ? "" : "Bob";
		v["Effect"] = "";
		string sname = r.chance(1, 6) ? "Nonesuch" : r.pick(names);
		v["Style"] = (r.chance(1, 8) ? "*" : "") + sname;
		SsaStyle const* s = nullptr;
		if (ehas("Style")) {
			auto it = styles.find(sname);
			if (it == styles.end()) { it = styles.find("Default"); if (it != styles.end()) { d.features |= 4; } }
			if (it != styles.end()) { s = &it->second; }
		}
		int ml = s ? s->ml : 0, mr = s ? s->mr : 0, mv = s ? s->mv : 0;
		auto margin = [&](string k, int& m) { int x = r.chance(1, 2) ? 0 : r.range(1, 150); v[k] = padded_zero(r, x); if (ehas(k) && x) { m = x; d.features |= 8; } };
		margin("MarginL", ml); margin("MarginR", mr); margin("MarginV", mv);

		Exp e;
		e.from = ms_text(from);
		e.to = ms_text(to);
		e.cue = n;
		int an = 2;
		double size = 72.0 / ry;
		Col primary;
		if (s) {
			e.font = s->font;
			size = double(s->size) / ry;
			primary = s->primary;
			e.colour = s->primary;
			e.effect_colour = s->back;
			e.bold = s->bold; e.italic = s->italic; e.underline = s->underline;
			if (s->shadow) { e.effect = int(sub::SHADOW); }
			an = s->align;
		}
		e.fs_prop = size;
		double const line_size = size * 1.2;
		optional<std::pair<double, double>> pos;

		string text;
		vector<Exp> runs;
		vector<int> run_line;
		int line = 0;
		if (!o.no_overrides && r.chance(o.position_heavy ? 2 : 1, o.position_heavy ? 3 : 4)) {
			d.features |= 16;
			text += "{";
			vector<string> tags;
			if (r.chance(2, 3)) { an = r.range(1, 9); tags.push_back("\\an" + std::to_string(an)); }
			if (r.chance(1, 4)) { tags.push_back("\\i1"); e.italic = true; }
			if (r.chance(1, 3)) {
				d.features |= 32;
				double x, y;
				char b[64];
				// text may be placed partly or wholly beyond the edges
				int const margin = r.chance(1, 4) ? 400 : 0;
				string const s1 = r.chance(1, 12) ? " " : "", s2 = r.chance(1, 8) ? " " : "";
				if (r.chance(2, 3)) { x = r.range(-margin, rx + margin); y = r.range(-margin, ry + margin); snprintf(b, sizeof(b), "%d,%s%d", int(x), s2.c_str(), int(y)); }
				else { x = r.range(-margin * 10, (rx + margin) * 10) / 10.0; y = r.range(-margin * 10, (ry + margin) * 10) / 10.0; snprintf(b, sizeof(b), "%.1f,%s%.1f", x, s2.c_str(), y); }
				pos = std::make_pair(x / rx, y / ry);
				tags.push_back("\\pos(" + s1 + b + ")");
			}
			for (size_t k = tags.size(); k > 1; --k) { std::swap(tags[k - 1], tags[r.below(k)]); }
			for (auto const& k: tags) {
				if (k != tags.front() && r.chance(1, 6)) { text += "}{"; }
				text += k;
			}
			text += "}";
		}
		int const nlines = r.chance(1, 100) ? r.range(8, 30) : 1 + r.skewed(4);
		for (int l = 0; l < nlines; ++l) {
			if (l) { text += r.coin() ? "\\N" : "\\n"; ++line; d.features |= 64; }
			int pieces = nlines > 1 && r.chance(1, 6) ? 0 : 1 + r.skewed(5);
			for (int p = 0; p < pieces; ++p) {
				if (r.chance(1, 3)) {
					d.features |= 128;
					text += "{";
					int const tags = r.below(4);
					if (tags == 0) { text += r.pick(vector<string>{ "", "a comment", "kf", "*" }); }
					for (int t = 0; t < tags; ++t) {
						switch (r.below(11)) {
						case 10: {
							if (r.chance(1, 4)) { text += "\\fn"; e.font = s ? s->font : optional<string>(); break; }
							string const f = r.pick(vector<string>{ "Arial", "Times New Roman", "H\xc3\xa9lv\xc3\xa9tica", "x", "fs20" });
							text += "\\fn" + f;
							e.font = f;
							break;
						}
						case 0: { bool b = r.coin(); text += b ? "\\i1" : r.coin() ? "\\i0" : "\\i"; e.italic = b; break; }
						case 1: { bool b = r.coin(); text += b ? "\\b1" : "\\b0"; e.bold = b; break; }
						case 2: { bool b = r.coin(); text += b ? "\\u1" : "\\u0"; e.underline = b; break; }
						case 3: case 4: {
							int cr = r.below(256), cg = r.below(256), cb = r.below(256);
							e.colour.r = cr / 255.0; e.colour.g = cg / 255.0; e.colour.b = cb / 255.0;
							string hex = hex2(r, cb) + hex2(r, cg) + hex2(r, cr);
							if (r.chance(1, 4)) { while (hex.size() > 1 && hex[0] == '0') { hex.erase(0, 1); } }
							else if (r.chance(1, 6)) { hex = "00" + hex; }
							text += "\\c&H" + hex + "&";
							break;
						}
						case 5: text += "\\c"; e.colour = primary; break;
						case 6: case 7: {
							if (r.chance(3, 4)) { int f = r.range(1, 300); text += "\\fs" + std::to_string(f); e.fs_prop = double(f) / ry; }
							else { int f = r.range(10, 3000); char b[32]; snprintf(b, sizeof(b), "\\fs%.1f", f / 10.0); text += b; e.fs_prop = f / 10.0 / ry; }
							break;
						}
						default:
							text += r.pick(vector<string>{ "\\fscx120", "\\fscy80", "\\fsp2", "\\k20", "\\kf15", "\\bord2", "\\shad0", "\\be1", "\\blur1.5", "\\frz30", "\\fad(100,200)",
								"\\clip(0,0,10,10)", "\\iclip(1,2,3,4)", "\\alpha&H80&", "\\q2", "\\move(1,2,3,4)", "\\org(1,2)", "\\s1", "\\xyzzy", "\\fax0.5", "\\fe1", "\\ufo", "\\nosuch", "\\Nope", "\\n" });
						}
					}
					text += "}";
				}
				Exp x = e;
				x.text = gen_text(r, o.text);
				if (r.chance(1, 8)) { x.text = r.pick(vector<string>{ ",", ", ", "a,b,,c", "}", ": ", ";", "[x]", "Dialogue: 1,2,3", "\xc2\xa0" }); }
				string written = x.text;
				if (r.chance(1, 12)) {
					// hard spaces, and backslashes that mean nothing
					size_t const at = r.below(3) == 0 ? 0 : x.text.size();
					string const w = r.pick(vector<string>{ "\\h", "\\x", "\\\\h", "\\h\\h", "\\;", "C:\\temp" });
					string shown;
					for (size_t k = 0; k < w.size(); ++k) { if (w.compare(k, 2, "\\h") == 0) { shown += "\xc2\xa0"; ++k; } else { shown += w[k]; } }
					written.insert(at, w);
					x.text.insert(at, shown);
				}
				runs.push_back(x);
				run_line.push_back(line);
				text += written;
			}
		}
		if (runs.empty()) { Exp x = e; x.text = "."; runs.push_back(x); run_line.push_back(line); text += "."; }
		// the whole of the text is trimmed
		if (is_space(text[0])) { text.insert(0, "{}"); }
		if (is_space(text.back())) { text += "{\\i0}"; }
		for (size_t i = 0; i < runs.size(); ++i) {
			Exp& x = runs[i];
			int const li = run_line[i];
			if (pos) {
				x.href = int(sub::LEFT_OF_SCREEN);
				x.hprop = pos->first;
				x.vref = int(sub::TOP_OF_SCREEN);
				x.vprop = pos->second + double(mv) / ry + li * line_size;
			} else {
				x.href = ssa_href(an);
				x.vref = ssa_vref(an);
				switch ((an - 1) % 3) {
				case 0: x.hprop = double(ml) / rx; break;
				case 1: x.hprop = (double(ml) - mr) / (2.0 * rx); break;
				default: x.hprop = double(mr) / rx; break;
				}
				switch ((an - 1) / 3) {
				case 0: x.vprop = double(mv) / ry + (line - li) * line_size; break;
				case 1: x.vprop = li * line_size - (line + 1) * line_size / 2; break;
				default: x.vprop = double(mv) / ry + li * line_size; break;
				}
			}
			// sums of this size are rounded on the way
			x.vscale = line_size * (line + 1);
			d.exp.push_back(x);
		}
		v["Text"] = text;
		vector<string> vals;
		for (auto const& k: ecols) { vals.push_back(v[k]); }
		string l = "Dialogue:" + string(r.coin(), ' ');
		for (size_t i = 0; i < vals.size(); ++i) { l += (i ? (i + 1 < vals.size() && r.chance(1, 12) ? ", " : ",") : "") + vals[i]; }
		if (o.layout && r.chance(1, 12)) { l = " " + l + " "; }
		d.lines.push_back(l);
		// the same again
		if (!o.sequential && r.chance(1, 20)) {
			vector<Exp> const exp(d.exp.begin() + first_exp, d.exp.end());
			for (int i = r.range(1, 2); i; --i) {
				++d.cues;
				d.lines.push_back(l);
				d.exp.insert(d.exp.end(), exp.begin(), exp.end());
			}
		}
	}
	if (r.chance(1, 2)) { other_section(); }
	random_layout(r, d, o.layout);
	return d;
}

}

#endif
