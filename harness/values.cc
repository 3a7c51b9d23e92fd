// C12 (times), C13 (collecting), C22 (positions, sizes, colours, equality).
#include "model.h"
#include "effect.h"
#include "vertical_reference.h"
#include <deque>
#include <list>

using namespace h;
using std::string;
using std::vector;

typedef __int128 big;

// ---------------------------------------------------------------- exact time: the model
struct Rate { int n, d; };

// seconds as a fraction
struct Exact { big n, d; };
static Exact operator+(Exact a, Exact b) { return { a.n * b.d + b.n * a.d, a.d * b.d }; }
static int cmp(Exact a, Exact b) { big x = a.n * b.d, y = b.n * a.d; return x < y ? -1 : (x > y ? 1 : 0); }
static long double real(Exact a) { return static_cast<long double>(a.n) / static_cast<long double>(a.d); }

struct T
{
	int s = 0, f = 0;
	optional<Rate> rate;
	Exact exact() const { return { big(s) * rate->n + big(f) * rate->d, rate->n }; }
	sub::Time time() const {
		if (!rate) { return sub::Time::from_hmsf(s / 3600, s / 60 % 60, s % 60, f); }
		return sub::Time::from_hmsf(s / 3600, s / 60 % 60, s % 60, f, sub::Rational(rate->n, rate->d));
	}
};

static string desc(T const& t) { return std::to_string(t.s) + "s+" + std::to_string(t.f) + (t.rate ? "@" + std::to_string(t.rate->n) + "/" + std::to_string(t.rate->d) : ""); }

static Rate const RATES[] = {
	{ 24, 1 }, { 25, 1 }, { 30, 1 }, { 48, 1 }, { 50, 1 }, { 60, 1 }, { 100, 1 }, { 120, 1 }, { 1000, 1 }, { 1, 1 }, { 12, 1 }, { 96, 1 },
	{ 24000, 1001 }, { 30000, 1001 }, { 60000, 1001 }, { 2997, 100 }, { 23976, 1000 }, { 50, 2 }, { 100, 4 }, { 25, 2 }, { 90000, 1 }
};

static Rate gen_rate(Rng& r, bool integer)
{
	for (;;) {
		Rate x = r.chance(1, 12) ? Rate{ static_cast<int>(r.range(1, 2000)), static_cast<int>(integer ? 1 : r.range(1, 1001)) } : r.pick(RATES);
		if (x.n < x.d || (integer && x.n % x.d != 0)) { continue; }
		return x;
	}
}

static int max_frame(Rate r) { return (r.n - 1) / r.d; }     // the last whole frame before the next second

static T gen_time(Rng& r, optional<Rate> rate)
{
	T t;
	t.rate = rate;
	switch (r.below(6)) {
	case 0: t.s = r.range(0, 3); break;
	case 1: t.s = r.pick({ 59, 60, 61, 3599, 3600, 3601, 35999, 36000, 86399, 86400, 359999 }); break;
	case 2: t.s = r.range(0, 1000000); break;
	default: t.s = r.range(0, 100000); break;
	}
	int const m = rate ? max_frame(*rate) : 59;
	switch (r.below(4)) {
	case 0: t.f = 0; break;
	case 1: t.f = m; break;
	default: t.f = r.range(0, m); break;
	}
	return t;
}

// a time near to, or exactly at, another
static T near_time(Rng& r, T const& a, optional<Rate> rate)
{
	T t = gen_time(r, rate);
	if (!rate || !a.rate || r.chance(1, 4)) { t.s = a.s + (r.chance(1, 3) ? r.range(-1, 1) : 0); t.s = std::max(t.s, 0); return t; }
	long double const f = static_cast<long double>(a.f) * a.rate->d / a.rate->n * rate->n / rate->d;
	t.s = a.s;
	t.f = std::min<int64_t>(max_frame(*rate), std::max<int64_t>(0, llroundl(f) + (r.chance(1, 3) ? r.range(-1, 1) : 0)));
	return t;
}

template <class F> static bool refused(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template <class F> static bool unknown_rate(F f) { try { f(); } catch (sub::UnknownFrameRateError&) { return true; } catch (...) {} return false; }

static void compare_all(T const& a, T const& b, int c)
{
	sub::Time const x = a.time(), y = b.time();
	string const what = desc(a) + " and " + desc(b) + ": ";
	auto expect = [&](bool got, bool want, char const* op) { if (got != want) { fail(string("compare ") + op, what + op + " is " + (got ? "true" : "false")); } };
	expect(x < y, c < 0, "<");
	expect(x > y, c > 0, ">");
	expect(x == y, c == 0, "==");
	expect(x != y, c != 0, "!=");
	expect(y < x, c > 0, "reversed <");
	expect(y > x, c < 0, "reversed >");
	expect(y == x, c == 0, "reversed ==");
	expect(y != x, c != 0, "reversed !=");
	count("comparisons", 8);
	count(c < 0 ? "pairs-less" : c > 0 ? "pairs-greater" : "pairs-equal");
}

static void check_fields(sub::Time const& t, T const& m)
{
	if (t.hours() != m.s / 3600 || t.minutes() != m.s / 60 % 60 || t.seconds() != m.s % 60) {
		fail("split", desc(m) + " splits into " + std::to_string(t.hours()) + ":" + std::to_string(t.minutes()) + ":" + std::to_string(t.seconds()));
	}
}

static void c12(Rng& r, uint64_t)
{
	bool const unrated = r.chance(1, 10);
	optional<Rate> ra, rb;
	if (!unrated) { ra = gen_rate(r, false); rb = r.chance(1, 3) ? *ra : gen_rate(r, false); }
	T a = gen_time(r, ra);
	T b = near_time(r, a, rb);
	input(desc(a) + ", " + desc(b));
	sample(desc(a) + ", " + desc(b));
	judged(desc(a) + desc(b));
	sub::Time const x = a.time();
	check_fields(x, a);

	if (unrated) {
		compare_all(a, b, a.s != b.s ? (a.s < b.s ? -1 : 1) : (a.f < b.f ? -1 : a.f > b.f ? 1 : 0));
		if (!unknown_rate([&]() { x.milliseconds(); })) { fail("unrated-converted", desc(a) + ": milliseconds() of a time without a rate"); }
		if (!unknown_rate([&]() { x.frames_at(sub::Rational(25, 1)); })) { fail("unrated-converted", desc(a) + ": frames_at() of a time without a rate"); }
		if (!unknown_rate([&]() { x.all_as_seconds(); })) { fail("unrated-converted", desc(a) + ": all_as_seconds() of a time without a rate"); }
		// against a time with one
		T c = a;
		c.rate = gen_rate(r, true);
		c.f = std::min(c.f, max_frame(*c.rate));
		sub::Time const y = c.time();
		if (!unknown_rate([&]() { (void) (x < y); }) || !unknown_rate([&]() { (void) (y < x); }) || !unknown_rate([&]() { (void) (x > y); })
		    || !unknown_rate([&]() { (void) (x == y); }) || !unknown_rate([&]() { (void) (x != y); }) || !unknown_rate([&]() { (void) (y > x); })) {
			fail("unrated-compared", desc(a) + " and " + desc(c) + " were compared");
		}
		// in another second their order is known, but equality is still refused
		T e = c;
		e.s = c.s > 0 && r.coin() ? c.s - 1 - r.below(std::min(c.s, 4000)) : c.s + 1 + r.below(4000);
		sub::Time const v = e.time();
		if (!unknown_rate([&]() { (void) (x == v); }) || !unknown_rate([&]() { (void) (x != v); }) || !unknown_rate([&]() { (void) (v == x); }) || !unknown_rate([&]() { (void) (v != x); })) {
			fail("unrated-compared", desc(a) + " and " + desc(e) + " were compared for equality");
		}
		if ((x < v) != (a.s < e.s) || (x > v) != (a.s > e.s) || (v < x) != (e.s < a.s) || (v > x) != (e.s > a.s)) { fail("unrated-order", desc(a) + " and " + desc(e)); }
		sub::Time z = x, w = y;
		if (!refused([&]() { z.add(y); }) || !refused([&]() { w.add(x); }) || !refused([&]() { z.scale(2); })) { fail("unrated-arithmetic", desc(a)); }
		count("unrated-refused");
		return;
	}

	compare_all(a, b, cmp(a.exact(), b.exact()));

	// a third, for the order's sake; what is checked against the model is checked against exact instants
	T c = near_time(r, r.coin() ? a : b, gen_rate(r, false));
	compare_all(b, c, cmp(b.exact(), c.exact()));

	// conversion
	Rate q = r.chance(1, 3) ? Rate{ 1000, 1 } : gen_rate(r, false);
	{
		int const got = x.frames_at(sub::Rational(q.n, q.d));
		// | got - f * d/n * qn/qd | <= 1/2
		big const e = big(a.f) * a.rate->d * q.n, den = big(a.rate->n) * q.d;
		big diff2 = (big(got) * den - e) * 2;
		if (diff2 < 0) { diff2 = -diff2; }
		if (diff2 > den) { fail("frames_at", desc(a) + " at " + std::to_string(q.n) + "/" + std::to_string(q.d) + " gives " + std::to_string(got)); }
		count("conversions");
	}
	{
		int const got = x.milliseconds();
		big diff2 = (big(got) * a.rate->n - big(a.f) * a.rate->d * 1000) * 2;
		if (diff2 < 0) { diff2 = -diff2; }
		if (diff2 > a.rate->n) { fail("milliseconds", desc(a) + " gives " + std::to_string(got)); }
		if (std::fabs(static_cast<double>(x.all_as_seconds() - real(a.exact()))) > 0.0005001) { fail("all_as_seconds", desc(a) + " gives " + num(x.all_as_seconds())); }
		count("conversions");
	}
	// reassembly
	if (!(sub::Time::from_hmsf(x.hours(), x.minutes(), x.seconds(), x.frames_at(sub::Rational(a.rate->n, a.rate->d)), sub::Rational(a.rate->n, a.rate->d)) == x)) {
		fail("reassembly", desc(a) + " does not reassemble to the same time");
	}
	{
		int const ms = r.range(0, 999);
		sub::Time t = sub::Time::from_hms(a.s / 3600, a.s / 60 % 60, a.s % 60, ms);
		T m; m.s = a.s; m.f = ms; m.rate = Rate{ 1000, 1 };
		check_fields(t, m);
		if (t.milliseconds() != ms) { fail("from_hms", std::to_string(ms) + " ms became " + std::to_string(t.milliseconds())); }
		compare_all(m, b, cmp(m.exact(), b.exact()));
		if (!(t == m.time())) { fail("from_hms", "from_hms and from_hmsf at 1000 differ for " + desc(m)); }
	}

	// from a number of frames
	{
		Rate const i = gen_rate(r, true);
		int const n = r.chance(1, 3) ? r.range(0, 2000) : r.range(0, 2000000000);
		int const fps = i.n / i.d;
		sub::Time t = sub::Time::from_frames(n, sub::Rational(i.n, i.d));
		T m; m.s = n / fps; m.f = n % fps; m.rate = i;
		check_fields(t, m);
		if (t.frames_at(sub::Rational(i.n, i.d)) != m.f) { fail("from_frames", std::to_string(n) + " frames at " + std::to_string(fps)); }
		compare_all(m, b, cmp(m.exact(), b.exact()));
		if (!refused([&]() { sub::Time::from_frames(n, sub::Rational(24000, 1001)); })) { fail("from_frames", "a rate that is not whole was accepted"); }
		count("from-frames");
	}

	// sum
	{
		Rate i = gen_rate(r, true);
		T p = a, s = gen_time(r, i);
		bool const a_finer = big(p.rate->n) * i.d > big(i.n) * p.rate->d;
		Rate const fine = a_finer ? *p.rate : i;
		sub::Time t = r.coin() ? p.time() : s.time();
		sub::Time const u = t == p.time() && !(t == s.time()) ? s.time() : p.time();
		bool const p_first = u == s.time();
		sub::Time sum = p_first ? p.time() : s.time();
		sub::Time const other = p_first ? s.time() : p.time();
		string const what = desc(p) + (p_first ? " + " : " added to ") + desc(s);
		if (fine.n % fine.d != 0) {
			// cannot be expressed
			if (!refused([&]() { sum.add(other); })) { fail("add-fraction", what + ": the finer rate is not whole"); }
			count("sums-refused");
		} else {
			sum.add(other);
			int const fps = fine.n / fine.d;
			int const f = sum.frames_at(sub::Rational(fps, 1));
			Exact const want = p.exact() + s.exact();
			// in units of the finer rate
			big const got = (big(sum.hours()) * 3600 + sum.minutes() * 60 + sum.seconds()) * fps + f;
			big diff2 = (got * want.d - want.n * fps) * 2;
			if (diff2 < 0) { diff2 = -diff2; }
			if (diff2 > want.d) { fail("add", what + " gives " + desc(sum)); }
			if (f < 0 || f >= fps) { fail("add-range", what + " gives " + desc(sum)); }
			// it is a time of that rate: nothing finer is in it
			T m; m.s = static_cast<int>(got / fps); m.f = static_cast<int>(got % fps); m.rate = Rate{ fps, 1 };
			if (!(sum == m.time())) { fail("add-unit", what + " gives " + desc(sum)); }
			check_fields(sum, m);
			count("sums");
		}
	}

	// product
	{
		Rate i = gen_rate(r, true);
		T p = gen_time(r, i);
		float factor;
		switch (r.below(5)) {
		case 0: factor = r.pick({ 0.0f, 1.0f, 0.5f, 2.0f, 10.0f, 0.25f, 25.0f / 24, 24.0f / 25, 1001.0f / 1000 }); break;
		case 1: factor = 1 + (r.unit() - 0.5) / 1000; break;
		default: factor = r.unit() * 4; break;
		}
		sub::Time t = p.time();
		t.scale(factor);
		int const fps = i.n / i.d;
		int const f = t.frames_at(sub::Rational(fps, 1));
		int64_t const got = (int64_t(t.hours()) * 3600 + t.minutes() * 60 + t.seconds()) * fps + f;
		// this much is exact in long double, but for one rounding
		long double const want = static_cast<long double>(int64_t(p.s) * fps + p.f) * factor;
		string const what = desc(p) + " * " + num(factor) + " gives " + desc(t);
		if (fabsl(static_cast<long double>(got) - want) > 0.5L + 1e-4L * fps / 1000 + fabsl(want) * 1e-14L) { fail("scale", what); }
		if (f < 0 || f >= fps) { fail("scale-range", what); }
		T m; m.s = static_cast<int>(got / fps); m.f = static_cast<int>(got % fps); m.rate = i;
		if (!(t == m.time())) { fail("scale-unit", what); }
		if (a.rate->n % a.rate->d != 0) {
			sub::Time v = x;
			if (!refused([&]() { v.scale(factor); })) { fail("scale-fraction", desc(a) + " was scaled though its rate is not whole"); }
		}
		count("products");
	}
}

// ---------------------------------------------------------------- collecting
static sub::Colour const COLOURS[] = { { 1, 1, 1 }, { 1, 0, 0 }, { 0, 0.5f, 1 }, { 0.25f, 0.25f, 0.25f } };

// a number that is close to another, but not the same
static float nudged(Rng& r, float x)
{
	float y = x;
	switch (r.below(4)) {
	case 0: y = std::nextafter(x, r.coin() ? 2.0f * fabsf(x) + 1 : -2.0f * fabsf(x) - 1); break;
	case 1: y = x + r.pick({ 1e-6f, -1e-6f, 1e-5f, -1e-5f }); break;
	case 2: y = x + r.pick({ 1e-4f, -1e-4f, 0.0005f, -0.0005f }); break;
	default: y = x + r.pick({ 0.001f, -0.001f, 0.003f, -0.003f }); break;
	}
	return y != x ? y : x + 1;
}

static sub::RawSubtitle gen_raw(Rng& r, bool with_lines)
{
	sub::RawSubtitle s;
	int const n = r.below(4);
	for (int i = 0; i < n; ++i) { s.text += r.pick({ "a", "B", " ", "\xc3\xa9", "\xe2\x82\xac", "0", "<" }); }
	if (r.chance(1, 3)) { s.font = r.pick({ "Arial", "", "Courier New" }); }
	if (r.chance(1, 3)) { s.font_size.set_points(r.range(1, 80)); }
	if (r.chance(1, 3)) { s.font_size.set_proportional(r.range(1, 10) / 64.0); }
	if (r.chance(1, 3)) { s.effect = r.coin() ? sub::BORDER : sub::SHADOW; }
	if (r.chance(1, 3)) { s.effect_colour = r.pick(COLOURS); }
	s.colour = r.pick(COLOURS);
	s.bold = r.coin(); s.italic = r.coin(); s.underline = r.coin();
	s.horizontal_position.reference = static_cast<sub::HorizontalReference>(r.below(3));
	s.horizontal_position.proportional = r.below(3) / 4.0;
	s.vertical_position.reference = static_cast<sub::VerticalReference>(r.chance(1, 3) ? r.below(4) : 0);
	if (r.chance(1, 3)) {
		s.vertical_position.proportional = r.below(3) / 8.0;
		if (r.chance(1, 8)) { s.vertical_position.proportional = nudged(r, *s.vertical_position.proportional); }
	} else {
		s.vertical_position.line = r.below(3);
		if (with_lines) { s.vertical_position.lines = r.chance(1, 5) ? 24 : 23; }
	}
	return s;
}

// everything that is the block's
static string block_key(sub::RawSubtitle const& s) { return h::desc_style(s); }

static bool same_place(sub::VerticalPosition const& a, sub::VerticalPosition const& b)
{
	return a.proportional == b.proportional && a.line == b.line && a.lines == b.lines && a.reference == b.reference;
}

template <class C>
static string check_collected(C const& out, string const& want)
{
	string got;
	for (auto const& s: out) { got += h::desc(s) + "\n"; }
	return got == want ? "" : diff(want, got);
}

static void c13(Rng& r, uint64_t i)
{
	int n = mix(i) % 100 == 3 ? r.range(500, 3000) : r.range(0, 24);
	bool const unrated = r.chance(1, 8);
	bool const with_lines = r.coin();
	bool const sorted = r.chance(1, 4);
	// the instants in use, some of them equal at different rates
	vector<T> pool;
	int const instants = n > 100 ? r.range(1, 400) : r.range(1, 6);
	for (int j = 0; j < instants; ++j) {
		T t = gen_time(r, unrated ? optional<Rate>() : optional<Rate>(gen_rate(r, false)));
		if (!unrated && j && r.coin()) { T u = near_time(r, pool[r.below(pool.size())], gen_rate(r, false)); t = u; }
		if (r.coin()) { t.s = r.range(0, 3); }
		pool.push_back(t);
	}
	auto order = [unrated](T const& a, T const& b) {
		if (unrated) { return a.s != b.s ? (a.s < b.s ? -1 : 1) : (a.f < b.f ? -1 : a.f > b.f ? 1 : 0); }
		return cmp(a.exact(), b.exact());
	};
	struct R { sub::RawSubtitle raw; T from, to; optional<T> up, down; };
	vector<R> v;
	for (int j = 0; j < n; ++j) {
		R x;
		if (!v.empty() && r.chance(1, 2)) {
			// shares much with an earlier one
			R const& o = r.chance(2, 3) ? v.back() : v[r.below(v.size())];
			x = o;
			sub::RawSubtitle s = gen_raw(r, with_lines);
			if (r.coin()) { s.vertical_position = o.raw.vertical_position; }
			if (s.vertical_position.proportional && r.chance(1, 8)) { s.vertical_position.proportional = nudged(r, *s.vertical_position.proportional); }
			x.raw = s;
		} else {
			x.raw = gen_raw(r, with_lines);
			x.from = r.pick(pool);
			x.to = r.pick(pool);
		}
		switch (r.below(12)) {
		case 0: x.from = r.pick(pool); break;
		case 1: x.to = r.pick(pool); break;
		case 2: x.up = r.pick(pool); break;
		case 3: x.down = r.pick(pool); break;
		case 4: x.up = boost::none; break;
		case 5: x.down = boost::none; break;
		}
		if (r.chance(1, 12) && j) { x = v[r.below(v.size())]; }
		x.raw.from = x.from.time();
		x.raw.to = x.to.time();
		x.raw.fade_up = boost::none;
		x.raw.fade_down = boost::none;
		if (x.up) { x.raw.fade_up = x.up->time(); }
		if (x.down) { x.raw.fade_down = x.down->time(); }
		v.push_back(x);
	}
	if (sorted) { std::stable_sort(v.begin(), v.end(), [&](R const& a, R const& b) { return order(a.from, b.from) < 0; }); }

	vector<sub::RawSubtitle> raw;
	for (auto const& x: v) { raw.push_back(x.raw); }
	string const before = h::desc(raw);
	input(before);
	if (n) { judged(before); }
	if (n < 5) { sample(before); }
	count("pieces", n);

	// the model: a sort by exact instant that keeps the order of equals (insertion of each after all that are not later)
	vector<size_t> idx;
	for (size_t j = 0; j < v.size(); ++j) { idx.push_back(j); }
	std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { int c = order(v[a].from, v[b].from); return c != 0 ? c < 0 : a < b; });
	auto same_opt = [&](optional<T> const& a, optional<T> const& b) { return a && b ? order(*a, *b) == 0 : !a == !b; };
	string want;
	int subtitles = 0, lines = 0;
	for (size_t j = 0; j < idx.size(); ++j) {
		R const& x = v[idx[j]];
		bool same = false, same_line = false;
		if (j) {
			// against the subtitle and line begun before
			R const& p = v[idx[j - 1]];
			same = order(p.from, x.from) == 0 && order(p.to, x.to) == 0 && same_opt(p.up, x.up) && same_opt(p.down, x.down);
			same_line = same && same_place(p.raw.vertical_position, x.raw.vertical_position);
		}
		if (!same) {
			if (j) { want += ">\n"; }
			want += "<" + h::desc(x.raw.from) + "->" + h::desc(x.raw.to);
			if (x.up) { want += " up " + h::desc(x.up->time()); }
			if (x.down) { want += " down " + h::desc(x.down->time()); }
			++subtitles;
		}
		if (!same_line) { want += "\n  line " + h::desc(x.raw.horizontal_position) + h::desc(x.raw.vertical_position); ++lines; }
		want += " {" + block_key(x.raw) + "}";
	}
	if (!idx.empty()) { want += ">\n"; }
	count("subtitles", subtitles);
	count("lines", lines);

	auto const a = sub::collect<vector<sub::Subtitle>>(raw);
	string d = check_collected(a, want);
	if (!d.empty()) { fail("collected", d); }
	d = check_collected(sub::collect<std::list<sub::Subtitle>>(raw), want);
	if (!d.empty()) { fail("collected-list", d); }
	d = check_collected(sub::collect<std::deque<sub::Subtitle>>(raw), want);
	if (!d.empty()) { fail("collected-deque", d); }
	if (h::desc(raw) != before) { fail("input-changed", diff(before, h::desc(raw))); }
	d = check_collected(sub::collect<vector<sub::Subtitle>>(raw), want);
	if (!d.empty()) { fail("collected-again", d); }
}

// ---------------------------------------------------------------- values
static float gen_float(Rng& r) { return r.coin() ? r.range(-100, 200) / 100.0f : static_cast<float>(r.unit() * 3 - 1); }

struct VP { int kind; int ref; float p; int line, lines; };    // kinds: 0 proportional, 1 line of lines, 2 line alone

static VP gen_vp(Rng& r) { return { static_cast<int>(r.below(3)), static_cast<int>(r.below(4)), gen_float(r), static_cast<int>(r.range(-3, 40)), static_cast<int>(r.range(1, 100)) }; }

static sub::VerticalPosition make(VP const& v)
{
	static sub::VerticalReference const R[] = { sub::TOP_OF_SCREEN, sub::VERTICAL_CENTRE_OF_SCREEN, sub::BOTTOM_OF_SCREEN, sub::TOP_OF_SUBTITLE };
	sub::VerticalPosition p;
	p.reference = R[v.ref];
	if (v.kind == 0) { p.proportional = v.p; } else { p.line = v.line; }
	if (v.kind == 1) { p.lines = v.lines; }
	return p;
}

static double from_top(VP const& v)
{
	double const x = v.kind == 0 ? double(v.p) : double(v.line) / v.lines;
	return v.ref == 1 ? 0.5 + x : v.ref == 2 ? 1 - x : x;
}

static bool same(VP const& a, VP const& b)
{
	if (a.kind != b.kind || a.ref != b.ref) { return false; }
	return a.kind == 0 ? a.p == b.p : a.line == b.line && (a.kind == 2 || a.lines == b.lines);
}

template <class A> static void expect_eq(A const& a, A const& b, bool want, string const& what)
{
	bool const x = a == b, y = b == a;
	if (x != want || y != want) { fail("equality " + what, what + ": expected " + (want ? "equal" : "different") + ", got " + (x ? "equal" : "different") + " and " + (y ? "equal" : "different") + " reversed"); }
	count(want ? "equal-pairs" : "different-pairs");
}

static sub::Block gen_block(Rng& r)
{
	sub::RawSubtitle s = gen_raw(r, true);
	return sub::Block(s);
}

static sub::Line gen_line(Rng& r)
{
	sub::RawSubtitle s = gen_raw(r, true);
	sub::Line l(s);
	for (int n = r.below(3); n; --n) { l.blocks.push_back(gen_block(r)); }
	return l;
}

static sub::Subtitle gen_sub(Rng& r)
{
	sub::RawSubtitle s = gen_raw(r, true);
	s.from = gen_time(r, gen_rate(r, false)).time();
	s.to = gen_time(r, gen_rate(r, false)).time();
	if (r.coin()) { s.fade_up = gen_time(r, gen_rate(r, true)).time(); }
	if (r.coin()) { s.fade_down = gen_time(r, gen_rate(r, true)).time(); }
	sub::Subtitle t(s);
	for (int n = r.below(3); n; --n) { t.lines.push_back(gen_line(r)); }
	return t;
}

// changes exactly one attribute
static string change(Rng& r, sub::Block& b)
{
	switch (r.below(9)) {
	case 0: b.text += "x"; return "text";
	case 1: if (b.font && r.coin()) { b.font = boost::none; } else { b.font = (b.font ? *b.font : "") + "x"; } return "font";
	case 2: {
		sub::FontSize f;
		if (b.font_size.points()) { f.set_points(*b.font_size.points() + 1); } else { f.set_points(12); }
		if (b.font_size.proportional()) { f.set_proportional(*b.font_size.proportional()); }
		b.font_size = f;
		return "font-points";
	}
	case 3: {
		sub::FontSize f;
		if (b.font_size.proportional()) { f.set_proportional(r.coin() ? *b.font_size.proportional() * 2 : nudged(r, *b.font_size.proportional())); } else { f.set_proportional(0.5); }
		if (b.font_size.points()) { f.set_points(*b.font_size.points()); }
		b.font_size = f;
		return "font-proportion";
	}
	case 4: if (b.effect && r.coin()) { b.effect = boost::none; } else { b.effect = b.effect && *b.effect == sub::BORDER ? sub::SHADOW : sub::BORDER; } return "effect";
	case 5: if (b.effect_colour && r.chance(1, 3)) { float* c[] = { &b.effect_colour->r, &b.effect_colour->g, &b.effect_colour->b }; float* f = r.pick(c); *f = nudged(r, *f); } else if (b.effect_colour && r.coin()) { b.effect_colour = boost::none; } else { b.effect_colour = sub::Colour(0.125f, b.effect_colour ? b.effect_colour->g : 0, b.effect_colour ? b.effect_colour->b : 0); } return "effect-colour";
	case 6: { float* c[] = { &b.colour.r, &b.colour.g, &b.colour.b }; float* f = r.pick(c); *f = r.coin() ? nudged(r, *f) : *f == 0.125f ? 0.25f : 0.125f; return "colour"; }
	case 7: (r.coin() ? b.bold : b.italic) ^= true; return "bold/italic";
	default: b.underline = !b.underline; return "underline";
	}
}

static string change(Rng& r, sub::Line& l)
{
	switch (r.below(5)) {
	case 0: l.horizontal_position.reference = static_cast<sub::HorizontalReference>((static_cast<int>(l.horizontal_position.reference) + 1) % 3); return "horizontal-reference";
	case 1: l.horizontal_position.proportional += 0.01f; return "horizontal-position";
	case 2:
		if (l.vertical_position.proportional) { l.vertical_position.proportional = r.coin() ? nudged(r, *l.vertical_position.proportional) : *l.vertical_position.proportional + 0.125f; return "vertical-proportional"; }
		if (r.coin()) { l.vertical_position.line = *l.vertical_position.line + 1; return "vertical-line"; }
		l.vertical_position.lines = *l.vertical_position.lines + 1; return "vertical-lines";
	case 3: l.vertical_position.reference = static_cast<sub::VerticalReference>((static_cast<int>(*l.vertical_position.reference) + 1) % 4); return "vertical-reference";
	default:
		if (r.chance(1, 3)) { l.blocks.push_back(gen_block(r)); return "number of blocks"; }
		return "block " + change(r, l.blocks[r.below(l.blocks.size())]);
	}
}

static string change(Rng& r, sub::Subtitle& s)
{
	auto later = [&r](sub::Time t) {
		// a little, or a whole second
		if (r.coin()) { try { t.add(sub::Time::from_frames(1, sub::Rational(1000000, 1))); return t; } catch (std::exception&) {} }
		t = sub::Time::from_hmsf(t.hours(), t.minutes(), t.seconds() + 1, 0, sub::Rational(25, 1)); return t; };
	switch (r.below(6)) {
	case 0: s.from = later(s.from); return "from";
	case 1: s.to = later(s.to); return "to";
	case 2: if (s.fade_up && r.coin()) { s.fade_up = boost::none; } else { s.fade_up = s.fade_up ? later(*s.fade_up) : s.from; } return "fade-up";
	case 3: if (s.fade_down && r.coin()) { s.fade_down = boost::none; } else { s.fade_down = s.fade_down ? later(*s.fade_down) : s.to; } return "fade-down";
	default:
		if (r.chance(1, 3)) { s.lines.push_back(gen_line(r)); return "number of lines"; }
		return "line " + change(r, s.lines[r.below(s.lines.size())]);
	}
}

static void c22(Rng& r, uint64_t i)
{
	// positions
	VP const a = gen_vp(r);
	VP b = r.chance(1, 3) ? a : gen_vp(r);
	if (r.coin()) { b.kind = a.kind; if (r.coin()) { b.ref = a.ref; } if (r.coin()) { b.p = r.chance(1, 3) ? nudged(r, a.p) : a.p; } if (r.coin()) { b.line = a.line; } if (r.coin()) { b.lines = a.lines; } }
	auto const x = make(a), y = make(b);
	string const what = h::desc(x) + " and " + h::desc(y);
	input(what);
	judged(what + std::to_string(i % 16));
	sample(what);
	if (a.kind != 2) {
		if (std::fabs(x.fraction_from_screen_top() - from_top(a)) > 1e-5) { fail("fraction", h::desc(x) + " is " + num(x.fraction_from_screen_top()) + " from the top"); }
		count("positions");
		if (b.kind != 2 && std::fabs(from_top(a) - from_top(b)) > 2e-5) {
			bool const less = from_top(a) < from_top(b);
			if ((x < y) != less || (y < x) == less) { fail("position-order", what); }
			count("positions-ordered");
		}
	} else {
		if (x.fraction_from_screen_top() != 0) { fail("fraction-unknown", h::desc(x) + " is " + num(x.fraction_from_screen_top()) + " from the top"); }
		count("positions-unknown");
	}
	{
		auto z = x;
		z.reference = boost::none;
		if (r.chance(1, 4)) { z = sub::VerticalPosition(); }
		if (z.fraction_from_screen_top() != 0) { fail("fraction-no-reference", h::desc(z) + " is " + num(z.fraction_from_screen_top()) + " from the top"); }
	}
	if (!((a.kind == 1 && b.kind == 2) || (a.kind == 2 && b.kind == 1))) { expect_eq(x, y, same(a, b), "vertical position"); }
	{
		sub::HorizontalPosition p, q;
		p.reference = static_cast<sub::HorizontalReference>(r.below(3));
		q.reference = static_cast<sub::HorizontalReference>(r.below(3));
		p.proportional = gen_float(r);
		q.proportional = p.proportional;
		if (r.coin()) { q.proportional += r.pick({ 0.001f, -0.001f, 0.25f, -1.0f }); }
		expect_eq(p, q, p.reference == q.reference && p.proportional == q.proportional, "horizontal position");
	}

	// font sizes
	{
		int const p = r.range(1, 500), h = r.pick({ 11, 72, 288, 480, 576, 720, 1080, 2160 });
		auto f = sub::FontSize::from_points(p);
		if (f.points(h) != p || std::fabs(f.proportional(h) - double(p) / h) > 1e-5 * p / h + 1e-7 || !f.specified() || f.proportional() || !f.points() || *f.points() != p) {
			fail("points", std::to_string(p) + " points of " + std::to_string(h));
		}
		auto g = sub::FontSize::from_proportional(f.proportional(h));
		if (g.points(h) != p) { fail("points-back", std::to_string(p) + " points of " + std::to_string(h) + " come back as " + std::to_string(g.points(h))); }
		float const q = r.coin() ? r.range(1, 300) / 1000.0f : static_cast<float>(r.unit());
		auto k = sub::FontSize::from_proportional(q);
		if (k.proportional(h) != q || std::fabs(k.points(h) - double(q) * h) > 0.5001 || !k.specified() || k.points() || !k.proportional() || *k.proportional() != q) {
			fail("proportion", num(q) + " of " + std::to_string(h) + " gives " + std::to_string(k.points(h)));
		}
		if (sub::FontSize().specified()) { fail("unspecified", "an empty size is specified"); }
		auto m = f;
		if (r.coin()) { m.set_points(p + static_cast<int>(r.range(-1, 1))); }
		bool const prop = r.chance(1, 3);
		if (prop) { m.set_proportional(q); }
		expect_eq(f, m, *m.points() == p && !prop, "font size");
		expect_eq(k, sub::FontSize::from_proportional(q), true, "font size");
		expect_eq(k, sub::FontSize::from_proportional(q * 1.25f), false, "font size");
		expect_eq(sub::FontSize(), sub::FontSize(), true, "empty font size");
		expect_eq(sub::FontSize(), f, false, "empty font size");
		count("sizes", 2);
	}

	// colours
	{
		int c[4];
		for (auto& j: c) { j = r.below(256); }
		// every value of every component in turn
		c[i % 3] = (i / 3) % 256;
		string s;
		for (int j = 0; j < 4; ++j) { char t[8]; snprintf(t, sizeof(t), r.coin() ? "%02x" : "%02X", c[j]); s += t; }
		auto check = [&](sub::Colour const& k, string const& from) {
			float const got[] = { k.r, k.g, k.b };
			for (int j = 0; j < 3; ++j) {
				if (std::fabs(got[j] - c[j] / 255.0) > 1e-6) { fail("colour", from + " gives " + h::desc(k)); }
			}
		};
		auto const p = sub::Colour::from_rgb_hex(s.substr(0, 6)), q = sub::Colour::from_rgba_hex(s);
		check(p, s.substr(0, 6));
		check(q, s);
		expect_eq(p, q, true, "colour");
		auto t = p;
		float* f[] = { &t.r, &t.g, &t.b };
		float* g = r.pick(f);
		*g = *g < 0.5 ? *g + 1 / 255.0f : *g - 1 / 255.0f;
		expect_eq(p, t, false, "colour");
		count("colours", 2);
		// cut short, or not hexadecimal
		string bad = s.substr(0, r.below(5));
		if (!refused([&]() { sub::Colour::from_rgb_hex(bad); })) { fail("colour-accepted", bad); }
		string bad2 = s.substr(0, r.below(7));
		if (!refused([&]() { sub::Colour::from_rgba_hex(bad2); })) { fail("colour-accepted", bad2); }
		bad = s.substr(0, 6);
		bad[r.below(3) * 2] = r.pick({ 'g', 'z', '#', '.', ',' });
		if (!refused([&]() { sub::Colour::from_rgb_hex(bad); })) { fail("colour-accepted", bad); }
		count("colours-refused", 3);
	}

	// names
	{
		string n[] = { "top", "center", "bottom", "none", "border", "shadow", "middle", "", "Top " };
		string const& s = r.pick(n);
		optional<int> v, e;
		try { v = static_cast<int>(sub::string_to_vertical_reference(s)); } catch (sub::XMLError&) {}
		bool const vwant = s == "top" || s == "center" || s == "bottom";
		if (!!v != vwant || (s == "top" && *v != sub::TOP_OF_SCREEN) || (s == "center" && *v != sub::VERTICAL_CENTRE_OF_SCREEN) || (s == "bottom" && *v != sub::BOTTOM_OF_SCREEN)) { fail("vertical-name", s); }
		bool accepted = false;
		optional<sub::Effect> eff;
		try { eff = sub::string_to_effect(s); accepted = true; } catch (sub::XMLError&) {}
		bool const ewant = s == "none" || s == "border" || s == "shadow";
		if (accepted != ewant || (s == "none" && eff) || (s == "border" && (!eff || *eff != sub::BORDER)) || (s == "shadow" && (!eff || *eff != sub::SHADOW))) { fail("effect-name", s); }
		count("names", 2);
	}

	// whole objects
	{
		auto p = gen_block(r); auto q = p;
		expect_eq(p, q, true, "block");
		string w = change(r, q);
		expect_eq(p, q, false, "block with other " + w);
	}
	{
		auto p = gen_line(r); auto q = p;
		expect_eq(p, q, true, "line");
		string w = change(r, q);
		expect_eq(p, q, false, "line with other " + w);
	}
	{
		auto p = gen_sub(r); auto q = p;
		expect_eq(p, q, true, "subtitle");
		string w = change(r, q);
		expect_eq(p, q, false, "subtitle with other " + w);
	}
}

int main(int argc, char** argv)
{
	string mode;
	for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--mode")) { mode = argv[i + 1]; } }
	if (mode == "C12") { return run(argc, argv, mode, c12); }
	if (mode == "C13") { return run(argc, argv, mode, c13); }
	if (mode == "C22") { return run(argc, argv, mode, c22); }
	return 3;
}
