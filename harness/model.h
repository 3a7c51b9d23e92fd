// What a reader is expected to return, and its comparison with what it did return.
// Runs of text are compared, not objects: neighbouring pieces with equal attributes are merged on both
// sides, and pieces without text are ignored, so only the text and the attributes it carries matter.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H

#include "common.h"
#include <boost/optional.hpp>

namespace h {

using boost::optional;

struct Col { double r = 1, g = 1, b = 1; };

struct Exp
{
	string text;
	optional<string> font;
	optional<double> fs_prop;
	optional<int> fs_points;
	optional<int> effect;
	optional<Col> effect_colour;
	Col colour;
	bool bold = false, italic = false, underline = false;
	int href = 1;
	double hprop = 0;
	optional<double> vprop;
	optional<int> vline, vlines, vref;
	string from, to;          // see TimeFmt
	bool fades = false;
	double vscale = 0;        // how large the numbers are that the vertical position was made of; not compared
	int cue = 0;              // which cue it belongs to; not compared
};

inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-5 + 4e-6 * std::max(std::fabs(a), std::fabs(b)); }
inline bool near(optional<double> const& a, optional<double> const& b) { return a && b ? near(*a, *b) : !a == !b; }
inline bool near(Col const& a, Col const& b) { return near(a.r, b.r) && near(a.g, b.g) && near(a.b, b.b); }
inline bool near(optional<Col> const& a, optional<Col> const& b) { return a && b ? near(*a, *b) : !a == !b; }

// names the first attribute that differs
inline string attr_diff(Exp const& a, Exp const& b)
{
	if (a.from != b.from) { return "from"; }
	if (a.to != b.to) { return "to"; }
	if (a.font != b.font) { return "font"; }
	if (!near(a.fs_prop, b.fs_prop) || a.fs_points != b.fs_points) { return "font-size"; }
	if (a.effect != b.effect) { return "effect"; }
	if (!near(a.effect_colour, b.effect_colour)) { return "effect-colour"; }
	if (!near(a.colour, b.colour)) { return "colour"; }
	if (a.bold != b.bold) { return "bold"; }
	if (a.italic != b.italic) { return "italic"; }
	if (a.underline != b.underline) { return "underline"; }
	if (a.href != b.href) { return "horizontal-reference"; }
	if (!near(a.hprop, b.hprop)) { return "horizontal-position"; }
	if (!near(a.vprop, b.vprop) && !(a.vprop && b.vprop && std::fabs(*a.vprop - *b.vprop) <= 4e-6 * std::max(a.vscale, b.vscale))) { return "vertical-proportional"; }
	if (a.vline != b.vline) { return "line"; }
	if (a.vlines != b.vlines) { return "lines"; }
	if (a.vref != b.vref) { return "vertical-reference"; }
	if (a.fades != b.fades) { return "fades"; }
	return "";
}

inline string desc(Exp const& e)
{
	std::ostringstream s;
	s.imbue(std::locale::classic());
	s << e.from << "->" << e.to << " [" << show(e.text) << "]";
	if (e.font) { s << " font=" << show(*e.font); }
	if (e.fs_prop) { s << " fs=" << *e.fs_prop; }
	if (e.fs_points) { s << " pt=" << *e.fs_points; }
	if (e.effect) { s << " effect=" << *e.effect; }
	if (e.effect_colour) { s << " ec=" << e.effect_colour->r << "/" << e.effect_colour->g << "/" << e.effect_colour->b; }
	s << " c=" << e.colour.r << "/" << e.colour.g << "/" << e.colour.b << (e.bold ? " B" : "") << (e.italic ? " I" : "") << (e.underline ? " U" : "")
	  << " h=" << e.href << ":" << e.hprop << " v=";
	if (e.vref) { s << "ref" << *e.vref; }
	if (e.vprop) { s << " p" << *e.vprop; }
	if (e.vline) { s << " l" << *e.vline; }
	if (e.vlines) { s << " of " << *e.vlines; }
	if (e.fades) { s << " fades"; }
	return s.str();
}

typedef std::function<string (sub::Time const&)> TimeFmt;

inline string hmsx(int64_t hh, int m, int s, int64_t x, char const* unit) {
	char b[64];
	snprintf(b, sizeof(b), "%lld:%02d:%02d+%lld%s", static_cast<long long>(hh), m, s, static_cast<long long>(x), unit);
	return b;
}
inline string ms_time(sub::Time const& t) { return hmsx(t.hours(), t.minutes(), t.seconds(), t.milliseconds(), "ms"); }
inline string ms_text(int64_t ms) { return hmsx(ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000, "ms"); }

inline Exp from_raw(sub::RawSubtitle const& r, TimeFmt fmt)
{
	Exp e;
	e.text = r.text;
	e.font = r.font;
	if (r.font_size.proportional()) { e.fs_prop = double(*r.font_size.proportional()); }
	if (r.font_size.points()) { e.fs_points = *r.font_size.points(); }
	if (r.effect) { e.effect = static_cast<int>(*r.effect); }
	auto col = [](sub::Colour const& c) { Col x; x.r = c.r; x.g = c.g; x.b = c.b; return x; };
	if (r.effect_colour) { e.effect_colour = col(*r.effect_colour); }
	e.colour = col(r.colour);
	e.bold = r.bold; e.italic = r.italic; e.underline = r.underline;
	e.href = static_cast<int>(r.horizontal_position.reference);
	e.hprop = r.horizontal_position.proportional;
	if (r.vertical_position.proportional) { e.vprop = double(*r.vertical_position.proportional); }
	if (r.vertical_position.line) { e.vline = *r.vertical_position.line; }
	if (r.vertical_position.lines) { e.vlines = *r.vertical_position.lines; }
	if (r.vertical_position.reference) { e.vref = static_cast<int>(*r.vertical_position.reference); }
	e.from = fmt(r.from);
	e.to = fmt(r.to);
	e.fades = r.fade_up || r.fade_down;
	return e;
}

inline vector<Exp> merge(vector<Exp> const& v)
{
	vector<Exp> o;
	for (auto const& i: v) {
		if (i.text.empty()) { continue; }
		if (!o.empty() && attr_diff(o.back(), i).empty()) { o.back().text += i.text; }
		else { o.push_back(i); }
	}
	return o;
}

inline vector<Exp> from_raws(vector<sub::RawSubtitle> const& raw, TimeFmt fmt)
{
	vector<Exp> o;
	for (auto const& i: raw) { o.push_back(from_raw(i, fmt)); }
	return o;
}

// returns "" or a description of the first difference; key gets the name of what differs
inline string compare(vector<Exp> const& expected, vector<Exp> const& actual, string& key)
{
	auto e = merge(expected);
	auto a = merge(actual);
	for (size_t i = 0; i < e.size() || i < a.size(); ++i) {
		if (i >= a.size()) { key = "missing-text"; return "missing from run " + std::to_string(i) + ": expected " + desc(e[i]); }
		if (i >= e.size()) { key = "extra-text"; return "unexpected run " + std::to_string(i) + ": " + desc(a[i]); }
		string d = attr_diff(e[i], a[i]);
		if (e[i].text != a[i].text) { d = d.empty() ? "text" : d; }
		if (!d.empty()) { key = d; return d + " differs in run " + std::to_string(i) + "\n expected " + desc(e[i]) + "\n got      " + desc(a[i]); }
	}
	return "";
}

}

#endif
