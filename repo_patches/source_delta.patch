From 4d70c3ecb2022f52b6ef8ea01ef138ddfc69e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 01/54] fix: keep SubRip's colour stack per cue and never pop
 the default colour

---
 src/subrip_reader.cc | 16 +++++++---------
 src/subrip_reader.h  |  2 ++
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..5fe9457 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -108,6 +108,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 			state = METADATA;
 			rs = RawSubtitle{};
 			prepare(rs);
+			_colours = { rs.colour };
 		}
 		break;
 		case METADATA:
@@ -225,9 +226,6 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	vector<Colour> colours;
-	colours.push_back (Colour (1, 1, 1));
-
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -273,10 +271,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else if (string(match[1]).size() == 8) {
 					p.colour = Colour::from_rgba_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -293,7 +291,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
 					p.colour.g = raw_convert<int>(string(match[2])) / 255.0;
 					p.colour.b = raw_convert<int>(string(match[3])) / 255.0;
-					colours.push_back (p.colour);
+					_colours.push_back (p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -301,10 +299,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
-				colours.pop_back();
-				p.colour = colours.back();
+			if (_colours.size() > 1) {
+				_colours.pop_back();
 			}
+			p.colour = _colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
diff --git a/src/subrip_reader.h b/src/subrip_reader.h
index bf438ed..1d92272 100644
--- a/src/subrip_reader.h
+++ b/src/subrip_reader.h
@@ -56,6 +56,8 @@ private:
 	void read (boost::function<boost::optional<std::string> ()> get_line);
 
 	std::list<std::string> _context;
+	/** Colours of the currently-open <font> tags in this subtitle, preceded by the default colour */
+	std::vector<Colour> _colours = { Colour(1, 1, 1) };
 };
 
 }
-- 
2.43.0


From 79d449456cdcd92be350c84c7a5152c4d226d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 02/54] fix: read whole lines of any length from a FILE*

---
 src/util.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..c68f3b4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,20 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
-	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
+	string line;
+	int c;
+	while ((c = getc(f)) != EOF) {
+		line += static_cast<char>(c);
+		if (c == '\n') {
+			break;
+		}
+	}
+
+	if (line.empty()) {
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From 82455597dfe7a42bf17da3b5117b10d70cc9df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 03/54] fix: compare times of different frame rates by the
 instants they denote

---
 src/sub_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..458a1d6 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -47,7 +48,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) < (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -66,7 +67,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) > (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -85,7 +86,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) == (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
-- 
2.43.0


From 80d43dfdd68ac55b586a4a193334ca5c5c29663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 04/54] fix: round rather than truncate the sum of two times

---
 src/sub_time.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 458a1d6..f79c022 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -180,8 +180,12 @@ Time::add (Time t)
 	SUB_ASSERT (_rate);
 	SUB_ASSERT (t._rate);
 
-	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	Rational const result_rate = max (*_rate, *t._rate);
+	SUB_ASSERT (result_rate.denominator != 0);
+	SUB_ASSERT (result_rate.integer ());
+	int const rate = result_rate.integer_fraction ();
+	int const frames = rint (double(_frames) * rate / _rate->fraction() + double(t._frames) * rate / t._rate->fraction());
+	*this = Time (_seconds + t._seconds + frames / rate, frames % rate, result_rate);
 }
 
 void
-- 
2.43.0


From 6cac373d30ab930f66007a3c4f86033a8a611fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 05/54] fix: scale a time exactly, and keep its frame count
 below the rate

---
 src/sub_time.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index f79c022..19fbdd9 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -195,7 +195,12 @@ Time::scale (float f)
 	SUB_ASSERT (_rate->denominator != 0);
 	SUB_ASSERT (_rate->integer ());
 
-	double const s = Time::all_as_seconds() * f;
+	int const rate = _rate->integer_fraction ();
+	double const s = (_seconds + double(_frames) / rate) * f;
 	_seconds = floor (s);
-	_frames = rint ((s - _seconds) * _rate->fraction());
+	_frames = rint ((s - _seconds) * rate);
+	if (_frames == rate) {
+		++_seconds;
+		_frames = 0;
+	}
 }
-- 
2.43.0


From b2428799d0eab393007e764f4cde0a0f4d43779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 06/54] fix: refuse times and margins that overflow an int
 rather than computing rubbish

---
 src/ssa_reader.cc | 10 ++++++++--
 src/sub_time.cc   | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..1b5126b 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -25,8 +25,10 @@
 #include "compose.hpp"
 #include <boost/algorithm/string.hpp>
 #include <boost/bind/bind.hpp>
+#include <cstdint>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <vector>
 
 using std::string;
@@ -200,7 +202,7 @@ SSAReader::Context::update_horizontal_position(RawSubtitle& sub) const
 		sub.horizontal_position.proportional = static_cast<float>(left_margin) / play_res_x;
 		break;
 	case HORIZONTAL_CENTRE_OF_SCREEN:
-		sub.horizontal_position.proportional = static_cast<float>(left_margin - right_margin) / (2 * play_res_x);
+		sub.horizontal_position.proportional = (static_cast<float>(left_margin) - static_cast<float>(right_margin)) / (2.0f * play_res_x);
 		break;
 	case RIGHT_OF_SCREEN:
 		sub.horizontal_position.proportional = static_cast<float>(right_margin) / play_res_x;
@@ -215,11 +217,15 @@ SSAReader::parse_time (string t) const
 	vector<string> bits;
 	split (bits, t, is_any_of (":."));
 	SUB_ASSERT (bits.size() == 4);
+	int const centiseconds = raw_convert<int> (bits[3]);
+	if (std::abs(int64_t(centiseconds)) > std::numeric_limits<int>::max() / 10) {
+		throw SSAError(String::compose("Time out of range %1", t));
+	}
 	return Time::from_hms (
 		raw_convert<int> (bits[0]),
 		raw_convert<int> (bits[1]),
 		raw_convert<int> (bits[2]),
-		raw_convert<int> (bits[3]) * 10
+		centiseconds * 10
 		);
 }
 
diff --git a/src/sub_time.cc b/src/sub_time.cc
index 19fbdd9..addde5c 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -24,6 +24,8 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
 
 using std::ostream;
 using std::cout;
@@ -144,16 +146,27 @@ Time::milliseconds () const
 	return frames_at (Rational (1000, 1));
 }
 
+static int
+hms_to_seconds (int h, int m, int s)
+{
+	int64_t const seconds = int64_t(h) * 3600 + int64_t(m) * 60 + s;
+	if (seconds < std::numeric_limits<int>::min() || seconds > std::numeric_limits<int>::max()) {
+		throw std::overflow_error ("time out of range");
+	}
+
+	return seconds;
+}
+
 Time
 Time::from_hmsf (int h, int m, int s, int f, optional<Rational> rate)
 {
-	return Time (h * 3600 + m * 60 + s, f, rate);
+	return Time (hms_to_seconds(h, m, s), f, rate);
 }
 
 Time
 Time::from_hms (int h, int m, int s, int ms)
 {
-	return Time (h * 3600 + m * 60 + s, ms, Rational (1000, 1));
+	return Time (hms_to_seconds(h, m, s), ms, Rational (1000, 1));
 }
 
 /** Create a Time from a number of frames.
-- 
2.43.0


From 9dafb4dc39764172500a40c30e2c90e54ffd7695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 07/54] fix: decode ISO 6937 without altering its tables or
 dereferencing missing ones

---
 src/iso6937.cc | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..574201a 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,12 +33,29 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** Make the tables the first time that they are needed, whichever thread that is in */
+static void
+ensure_tables ()
+{
+	static bool const made = (make_iso6937_tables(), true);
+	(void) made;
+}
+
+static optional<wchar_t>
+lookup (map<char, wchar_t> const & m, char c)
+{
+	auto i = m.find (c);
+	if (i == m.end()) {
+		return optional<wchar_t> ();
+	}
+
+	return i->second;
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	wstring o;
 
@@ -50,10 +67,24 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			auto table = iso6937::diacriticals.find (diacritical.get());
+			optional<wchar_t> w;
+			if (table != iso6937::diacriticals.end()) {
+				w = lookup (*table->second, u);
+			}
+			if (!w) {
+				/* No such combination; keep the letter */
+				w = lookup (iso6937::main, u);
+			}
+			if (w) {
+				o += *w;
+			}
 			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			auto w = lookup (iso6937::main, u);
+			if (w) {
+				o += *w;
+			}
 		}
 
 		++i;
@@ -77,9 +108,7 @@ find (map<char, wchar_t> const & m, wchar_t c)
 string
 sub::utf16_to_iso6937 (wstring s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	/* XXX: slow */
 
-- 
2.43.0


From 6d6d584cdf9295f5d4ad8cb0b03e1249187bc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 08/54] fix: encode combining marks to ISO 6937 in front of
 their letters, not alone

---
 src/iso6937.cc        | 10 +++++++++-
 src/iso6937.py        |  2 +-
 src/iso6937_tables.cc |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 574201a..b2430f8 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -115,7 +115,15 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		if (c && static_cast<unsigned char>(*c) >= 0xc1 && static_cast<unsigned char>(*c) <= 0xcf) {
+			/* A combining mark, whose code goes before the letter that it is to be combined with.
+			   Drop it if there is no such combination.
+			*/
+			auto table = iso6937::diacriticals.find (*c);
+			if (i > 0 && s[i - 1] < 128 && table != iso6937::diacriticals.end() && lookup(*table->second, s[i - 1])) {
+				o.insert (o.size() - 1, 1, *c);
+			}
+		} else if (c) {
 			o += c.get ();
 		} else {
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
diff --git a/src/iso6937.py b/src/iso6937.py
index f1e6c56..bdb3e16 100644
--- a/src/iso6937.py
+++ b/src/iso6937.py
@@ -180,7 +180,7 @@ print("\tmain[200U] = 0x0308;", file=output_c)
 print("\tmain[202U] = 0x030A;", file=output_c)
 print("\tmain[203U] = 0x0327;", file=output_c)
 print("\tmain[205U] = 0x030B;", file=output_c)
-print("\tmain[206U] = 0x032B;", file=output_c)
+print("\tmain[206U] = 0x0328;", file=output_c)
 print("\tmain[207U] = 0x030C;", file=output_c)
 print("\tmain[208U] = 0x2015;", file=output_c)
 print("\tmain[209U] = 0x00B9;", file=output_c)
diff --git a/src/iso6937_tables.cc b/src/iso6937_tables.cc
index 628557f..c335c3e 100644
--- a/src/iso6937_tables.cc
+++ b/src/iso6937_tables.cc
@@ -350,7 +350,7 @@ sub::make_iso6937_tables ()
 	main[202U] = 0x030A;
 	main[203U] = 0x0327;
 	main[205U] = 0x030B;
-	main[206U] = 0x032B;
+	main[206U] = 0x0328;
 	main[207U] = 0x030C;
 	main[208U] = 0x2015;
 	main[209U] = 0x00B9;
-- 
2.43.0


From 83e674f65902794eeef756d9f4f9f9318e965498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 09/54] fix: cope with a line position that has no number of
 lines

---
 src/vertical_position.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..3f44edc 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -25,7 +25,8 @@ using namespace sub;
 float
 VerticalPosition::fraction_from_screen_top () const
 {
-	if (!reference || (!proportional && !line)) {
+	if (!reference || (!proportional && !(line && lines))) {
+		/* The position on screen is not known */
 		return 0;
 	}
 
-- 
2.43.0


From fc81637d385d933d76fdbcd1984a83a47b03f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 10/54] fix: work out STL rows without truncating, aborting or
 leaving the screen

---
 src/stl_binary_writer.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..ebac372 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -110,7 +110,7 @@ put_int_as_int (char* p, int v, unsigned int n)
 static int
 vertical_position (sub::Line const & line)
 {
-	int vp = 0;
+	double vp = 0;
 	if (line.vertical_position.proportional) {
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
@@ -125,24 +125,28 @@ vertical_position (sub::Line const & line)
 		default:
 			break;
 		}
-	} else if (line.vertical_position.line) {
+	} else if (line.vertical_position.line && line.vertical_position.lines) {
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
 		}
+	} else if (line.vertical_position.line) {
+		/* We don't know the height of the screen in lines, so take them to be our rows */
+		vp = line.vertical_position.line.get ();
 	}
 
-	return vp;
+	/* Keep it on the screen */
+	return std::min (std::max (0.0, vp), double(ROWS));
 }
 
 vector<char*>
-- 
2.43.0


From 78a16b51c84fbc7e0fb9a06a1caa196607b151b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 11/54] fix: always start a new row for each line of an STL
 subtitle

---
 src/stl_binary_writer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index ebac372..6c6ec71 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -177,10 +177,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		for (auto const& j: i.lines) {
 
-			/* CR/LF down to this line */
-			int const vp = vertical_position (j);
+			/* CR/LF down to this line, which must be below the last one */
+			int vp = vertical_position (j);
 
 			if (last_vp) {
+				vp = max (vp, last_vp.get() + 1);
 				for (int k = last_vp.get(); k < vp; ++k) {
 					text += "\x8A";
 				}
-- 
2.43.0


From 27d4c78c875454ce58b4f8b4d3a259c2590ad432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 12/54] fix: write STL time codes that are valid at the frame
 rate in the header

---
 src/stl_binary_writer.cc | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 6c6ec71..8523db3 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -22,6 +22,7 @@
  */
 
 #include "stl_binary_writer.h"
+#include "exceptions.h"
 #include "subtitle.h"
 #include "iso6937.h"
 #include "stl_util.h"
@@ -30,6 +31,7 @@
 #include <boost/locale.hpp>
 #include <boost/algorithm/string.hpp>
 #include <cmath>
+#include <cstdint>
 #include <fstream>
 #include <iomanip>
 #include <set>
@@ -107,6 +109,30 @@ put_int_as_int (char* p, int v, unsigned int n)
 	}
 }
 
+/** @param t Time.
+ *  @param rate Number of frames in each second of the time code.
+ */
+static void
+put_timecode (char* p, Time const& t, int rate)
+{
+	int64_t seconds = int64_t(t.hours()) * 3600 + t.minutes() * 60 + t.seconds();
+	int frames = t.frames_at (Rational(rate, 1));
+	if (frames >= rate) {
+		/* The time was rounded up to the next second */
+		++seconds;
+		frames = 0;
+	}
+
+	if (seconds < 0 || seconds >= 256 * 3600) {
+		throw STLError ("Time is too large for a binary STL file");
+	}
+
+	put_int_as_int (p, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 static int
 vertical_position (sub::Line const & line)
 {
@@ -153,6 +179,8 @@ vector<char*>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
 	static int const tti_size = 128;
+	/* Time codes count whole frames at the rate that the header says we are using */
+	int const timecode_rate = rint (stl_dfc_to_frame_rate(stl_frame_rate_to_dfc(frames_per_second)));
 	vector<char*> tti;
 
 	/* Buffer to build the TTI blocks in */
@@ -235,15 +263,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 5, i.from, timecode_rate);
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 9, i.to, timecode_rate);
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From 73b8aadd9a33b9c3f14e39cc751a450d80360b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 13/54] fix: read 23.976fps STL time codes as 24 frames per
 second of time code

---
 src/stl_binary_reader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..ab0a4b0 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -25,6 +25,7 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
+#include <cmath>
 #include <iostream>
 
 using std::map;
@@ -187,6 +188,9 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	editor_name = reader->get_string(309, 32);
 	editor_contact_details = reader->get_string(341, 32);
 
+	/* 23.976fps time codes count 24 frames in each of their seconds */
+	int const timecode_rate = rint (frame_rate);
+
 	int highest_line = 0;
 	for (int i = 0; i < tti_blocks; ++i) {
 
@@ -210,8 +214,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, frame_rate);
-			sub.to = reader->get_timecode(9, frame_rate);
+			sub.from = reader->get_timecode(5, timecode_rate);
+			sub.to = reader->get_timecode(9, timecode_rate);
 			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
 			 * is wrong if the EBN of this TTI block is not 255 (I think).
 			 */
-- 
2.43.0


From 811486ececcb409c06cc32ac1b6549f43974d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 14/54] fix: keep STL header counts within their fields, and
 cope with empty subtitles

---
 src/stl_binary_writer.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 8523db3..60c56e5 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -267,11 +267,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Time code out */
 		put_timecode (buffer + 9, i.to, timecode_rate);
 		/* Vertical position */
-		put_int_as_int (buffer + 13, top.get(), 1);
+		put_int_as_int (buffer + 13, top.get_value_or(0), 1);
 
 		/* Justification code */
 		/* XXX: this assumes the first line has the right value */
-		switch (i.lines.front().horizontal_position.reference) {
+		switch (i.lines.empty() ? HORIZONTAL_CENTRE_OF_SCREEN : i.lines.front().horizontal_position.reference) {
 			case LEFT_OF_SCREEN:
 				put_int_as_int (buffer + 14, tables.justification_enum_to_file (JUSTIFICATION_LEFT), 1);
 				break;
@@ -340,7 +340,7 @@ sub::write_stl_binary (
 	SUB_ASSERT (translator_contact_details.size() <= 32);
 	SUB_ASSERT (creation_date.size() == 6);
 	SUB_ASSERT (revision_date.size() == 6);
-	SUB_ASSERT (revision_number <= 99);
+	SUB_ASSERT (revision_number >= 0 && revision_number <= 99);
 	SUB_ASSERT (country_of_origin.size() == 3);
 	SUB_ASSERT (publisher.size() <= 32);
 	SUB_ASSERT (editor_name.size() <= 32);
@@ -358,13 +358,16 @@ sub::write_stl_binary (
 		for (auto const& j: i.lines) {
 			int t = 0;
 			for (auto const& k: j.blocks) {
-				t += k.text.size ();
+				t += utf_to_utf<wchar_t>(k.text).size ();
 			}
 			longest = std::max (longest, t);
 		}
 	}
 
 	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	if (tti_blocks.size() > 99999 || subtitles.size() > 99999) {
+		throw STLError ("Too many subtitles for a binary STL file");
+	}
 
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
@@ -393,7 +396,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min(longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 7942a770fd0e64bdd3162266d1c92107ce5236bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 15/54] fix: report failure to write a binary STL file, and do
 not leak its blocks

---
 src/stl_binary_writer.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 60c56e5..f9645ce 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -175,13 +175,13 @@ vertical_position (sub::Line const & line)
 	return std::min (std::max (0.0, vp), double(ROWS));
 }
 
-vector<char*>
+vector<string>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
 	static int const tti_size = 128;
 	/* Time codes count whole frames at the rate that the header says we are using */
 	int const timecode_rate = rint (stl_dfc_to_frame_rate(stl_frame_rate_to_dfc(frames_per_second)));
-	vector<char*> tti;
+	vector<string> tti;
 
 	/* Buffer to build the TTI blocks in */
 	char buffer[tti_size];
@@ -299,9 +299,7 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
 
-			char* finished = new char[tti_size];
-			memcpy (finished, buffer, tti_size);
-			tti.push_back (finished);
+			tti.push_back (string(buffer, tti_size));
 		}
 	}
 
@@ -364,7 +362,7 @@ sub::write_stl_binary (
 		}
 	}
 
-	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	vector<string> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
 	if (tti_blocks.size() > 99999 || subtitles.size() > 99999) {
 		throw STLError ("Too many subtitles for a binary STL file");
 	}
@@ -416,8 +414,12 @@ sub::write_stl_binary (
 
 	ofstream output (file_name.string().c_str());
 	output.write (buffer, 1024);
-	for (auto i: tti_blocks) {
-		output.write (i, 128);
-		delete[] i;
+	for (auto const& i: tti_blocks) {
+		output.write (i.data(), i.size());
+	}
+
+	output.close ();
+	if (!output) {
+		throw STLError (String::compose("Could not write %1", file_name.string()));
 	}
 }
-- 
2.43.0


From be5055f1fe04dfdccc04943b65be1ba4fc0d1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 16/54] fix: join the text of STL extension blocks to that of
 the block they extend

---
 src/stl_binary_reader.cc | 62 +++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index ab0a4b0..e5fecef 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -191,7 +191,19 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	/* 23.976fps time codes count 24 frames in each of their seconds */
 	int const timecode_rate = rint (frame_rate);
 
-	int highest_line = 0;
+	/* Read the TTI blocks, joining each extension block to the one that it extends */
+	struct Block {
+		int subtitle_number;
+		string timecodes;
+		int extension_block_number;
+		Time from;
+		Time to;
+		int vertical_position;
+		int justification;
+		string text;
+	};
+	vector<Block> blocks;
+
 	for (int i = 0; i < tti_blocks; ++i) {
 
 		reader->read (128, "TTI");
@@ -200,11 +212,43 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
-		string const whole = reader->get_string(16, 112);
+		Block block;
+		block.subtitle_number = reader->get_int(0, 3);
+		block.timecodes = reader->get_string(5, 8);
+		block.extension_block_number = reader->get_int(3, 1);
+		block.from = reader->get_timecode(5, timecode_rate);
+		block.to = reader->get_timecode(9, timecode_rate);
+		block.vertical_position = reader->get_int(13, 1);
+		block.justification = reader->get_int(14, 1);
+		block.text = reader->get_string(16, 112);
+
+		if (block.extension_block_number == 0xfe) {
+			/* This is user data, not text */
+			continue;
+		}
+
+		if (
+			!blocks.empty() &&
+			blocks.back().extension_block_number != 0xff &&
+			(block.extension_block_number == 0xff || block.extension_block_number == blocks.back().extension_block_number + 1) &&
+			block.subtitle_number == blocks.back().subtitle_number &&
+			block.timecodes == blocks.back().timecodes
+		   ) {
+			/* Unused space at the end of the block that we are extending is not the end of the subtitle */
+			trim_right_if (blocks.back().text, is_any_of ("\x8f"));
+			blocks.back().text += block.text;
+			blocks.back().extension_block_number = block.extension_block_number;
+		} else {
+			blocks.push_back (block);
+		}
+	}
+
+	int highest_line = 0;
+	for (auto const& block: blocks) {
 
 		/* Split the text up into lines (8Ah is a new line) */
 		vector<string> lines;
-		split (lines, whole, is_any_of ("\x8a"));
+		split (lines, block.text, is_any_of ("\x8a"));
 
 		/* Italic / underline specifications can span lines, so we need to track them
 		   outside the lines loop.
@@ -214,12 +258,9 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, timecode_rate);
-			sub.to = reader->get_timecode(9, timecode_rate);
-			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
-			 * is wrong if the EBN of this TTI block is not 255 (I think).
-			 */
-			sub.vertical_position.line = reader->get_int(13, 1) + j;
+			sub.from = block.from;
+			sub.to = block.to;
+			sub.vertical_position.line = block.vertical_position + j;
 			highest_line = std::max(highest_line, *sub.vertical_position.line);
 			sub.vertical_position.lines = maximum_rows;
 			sub.vertical_position.reference = TOP_OF_SCREEN;
@@ -227,8 +268,7 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			sub.underline = underline;
 
 			/* XXX: not sure what to do with JC = 0, "unchanged presentation" */
-			int const h = reader->get_int(14, 1);
-			switch (h) {
+			switch (block.justification) {
 			case 0:
 			case 2:
 				sub.horizontal_position.reference = HORIZONTAL_CENTRE_OF_SCREEN;
-- 
2.43.0


From f90b0a6140d33cb0fde4be931c76ea8416970be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 17/54] fix: refuse STL subtitles that need more extension
 blocks than there are numbers

---
 src/stl_binary_writer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index f9645ce..217dd82 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -295,6 +295,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			put_string (buffer + 16, text.substr(offset, this_time) + string(block_size - this_time, '\x8f'));
 			offset += this_time;
 
+			/* Numbers above 0xef are reserved */
+			if (block_number > 0xef && offset < text.length()) {
+				throw STLError ("Subtitle is too long for a binary STL file");
+			}
+
 			/* Extension block number.  Count up from 0 but use 0xff for the last one */
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
-- 
2.43.0


From 618ec2d3f928adb427f31833c761c273844ae83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 18/54] fix: recognise the UTF-8 language group as itself

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From 6c2a66afddad6015f40b3e8a6d0d1260b0d47954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 19/54] fix: read the last line of a text STL file when no
 newline ends it

---
 src/stl_text_reader.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..5b5dcd4 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -44,13 +44,8 @@ STLTextReader::STLTextReader (istream& in)
 	_subtitle.vertical_position.line = 0;
 	_subtitle.vertical_position.reference = TOP_OF_SUBTITLE;
 
-	while (in.good ()) {
-		string line;
-		getline (in, line);
-		if (!in.good ()) {
-			return;
-		}
-
+	string line;
+	while (getline (in, line)) {
 		trim (line);
 
 		if (starts_with (line, "//")) {
-- 
2.43.0


From e238088c6be87cc8e28a74f3ce8061a3dee15326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 20/54] fix: number the lines of text STL subtitles from 0 in
 each subtitle

---
 src/stl_text_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 5b5dcd4..7b62285 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -95,6 +95,8 @@ STLTextReader::STLTextReader (istream& in)
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
 
+			_subtitle.vertical_position.line = 0;
+
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
 			for (size_t i = 0; i < text.length(); ++i) {
@@ -162,6 +164,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From 07e9bee1622cf839cede1750cb7a09e32a88ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 21/54] fix: do not lose a digit of a text STL in time that has
 no space after it

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 7b62285..ae2d6ab 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -79,7 +79,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From ca01a6b19b6b732f7f310c796c470a0a49bcde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 22/54] fix: skip the byte order mark of a text STL file

---
 src/stl_text_reader.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index ae2d6ab..c8afe8d 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -45,7 +45,14 @@ STLTextReader::STLTextReader (istream& in)
 	_subtitle.vertical_position.reference = TOP_OF_SUBTITLE;
 
 	string line;
+	bool first = true;
 	while (getline (in, line)) {
+		if (first && starts_with (line, "\xef\xbb\xbf")) {
+			/* Skip Unicode byte order mark */
+			line = line.substr (3);
+		}
+		first = false;
+
 		trim (line);
 
 		if (starts_with (line, "//")) {
-- 
2.43.0


From 9ce28b0895245f036578dc299f111880cd4a2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 23/54] fix: do not let the global locale affect trimming, tags
 or metadata

---
 src/ssa_reader.cc        | 13 +++++++------
 src/stl_binary_reader.cc | 28 +++++++++++++++++-----------
 src/stl_text_reader.cc   | 11 ++++++-----
 src/subrip_reader.cc     |  7 ++++---
 4 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1b5126b..eb52f62 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -28,6 +28,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <iostream>
+#include <locale>
 #include <limits>
 #include <vector>
 
@@ -112,8 +113,8 @@ public:
 		SUB_ASSERT (keys.size() == style.size());
 
 		for (size_t i = 0; i < style.size(); ++i) {
-			trim (keys[i]);
-			trim (style[i]);
+			trim (keys[i], std::locale::classic());
+			trim (style[i], std::locale::classic());
 			if (keys[i] == "Name") {
 				name = style[i];
 			} else if (keys[i] == "Fontname") {
@@ -451,7 +452,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 			break;
 		}
 
-		trim (*line);
+		trim (*line, std::locale::classic());
 		remove_unicode_bom (line);
 
 		if (starts_with (*line, ";") || line->empty ()) {
@@ -474,7 +475,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
 		string body = line->substr (colon + 1);
-		trim (body);
+		trim (body, std::locale::classic());
 
 		switch (part) {
 		case INFO:
@@ -497,7 +498,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 			if (type == "Format") {
 				split (event_format, body, is_any_of (","));
 				for (auto& i: event_format) {
-					trim (i);
+					trim (i, std::locale::classic());
 				}
 			} else if (type == "Dialogue") {
 				SUB_ASSERT (!event_format.empty ());
@@ -522,7 +523,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 				int right_margin = 0;
 
 				for (size_t i = 0; i < event.size(); ++i) {
-					trim (event[i]);
+					trim (event[i], std::locale::classic());
 					if (event_format[i] == "Start") {
 						sub.from = parse_time (event[i]);
 					} else if (event_format[i] == "End") {
diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index e5fecef..934373f 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -22,18 +22,20 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
-#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
 #include <cmath>
+#include <iomanip>
 #include <iostream>
+#include <locale>
+#include <sstream>
+#include <string>
 
 using std::map;
 using std::vector;
 using std::cout;
 using std::string;
 using std::istream;
-using boost::lexical_cast;
 using boost::algorithm::replace_all;
 using boost::is_any_of;
 using boost::locale::conv::utf_to_utf;
@@ -376,8 +378,12 @@ STLBinaryReader::metadata () const
 {
 	map<string, string> m;
 
-	m["Code page number"] = lexical_cast<string> (code_page_number);
-	m["Frame rate"] = lexical_cast<string> (frame_rate);
+	std::ostringstream frame_rate_string;
+	frame_rate_string.imbue (std::locale::classic());
+	frame_rate_string << std::setprecision(9) << frame_rate;
+
+	m["Code page number"] = std::to_string (code_page_number);
+	m["Frame rate"] = frame_rate_string.str ();
 	m["Display standard"] = _tables.display_standard_enum_to_description (display_standard);
 	m["Language group"] = _tables.language_group_enum_to_description (language_group);
 	m["Language"] = _tables.language_enum_to_description (language);
@@ -391,16 +397,16 @@ STLBinaryReader::metadata () const
 	m["Creation date"] = creation_date;
 	m["Revision date"] = revision_date;
 	m["Revision number"] = revision_number;
-	m["TTI blocks"] = lexical_cast<string> (tti_blocks);
-	m["Number of subtitles"] = lexical_cast<string> (number_of_subtitles);
-	m["Subtitle groups"] = lexical_cast<string> (subtitle_groups);
-	m["Maximum characters"] = lexical_cast<string> (maximum_characters);
-	m["Maximum rows"] = lexical_cast<string> (maximum_rows);
+	m["TTI blocks"] = std::to_string (tti_blocks);
+	m["Number of subtitles"] = std::to_string (number_of_subtitles);
+	m["Subtitle groups"] = std::to_string (subtitle_groups);
+	m["Maximum characters"] = std::to_string (maximum_characters);
+	m["Maximum rows"] = std::to_string (maximum_rows);
 	m["Timecode status"] = _tables.timecode_status_enum_to_description (timecode_status);
 	m["Start of programme"] = start_of_programme;
 	m["First in cue"] = first_in_cue;
-	m["Disks"] = lexical_cast<string> (disks);
-	m["Disk sequence number"] = lexical_cast<string> (disk_sequence_number);
+	m["Disks"] = std::to_string (disks);
+	m["Disk sequence number"] = std::to_string (disk_sequence_number);
 	m["Country of origin"] = country_of_origin;
 	m["Publisher"] = publisher;
 	m["Editor name"] = editor_name;
diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index c8afe8d..2f6f408 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -23,6 +23,7 @@
 #include <boost/lexical_cast.hpp>
 #include <vector>
 #include <iostream>
+#include <locale>
 
 using std::ostream;
 using std::istream;
@@ -53,7 +54,7 @@ STLTextReader::STLTextReader (istream& in)
 		}
 		first = false;
 
-		trim (line);
+		trim (line, std::locale::classic());
 
 		if (starts_with (line, "//")) {
 			continue;
@@ -65,9 +66,9 @@ STLTextReader::STLTextReader (istream& in)
 			split (bits, line, is_any_of ("="));
 			if (bits.size() == 2) {
 				string name = bits[0];
-				trim (name);
+				trim (name, std::locale::classic());
 				string value = bits[1];
-				trim (value);
+				trim (value, std::locale::classic());
 
 				set (name, value);
 			} else {
@@ -87,9 +88,9 @@ STLTextReader::STLTextReader (istream& in)
 			}
 
 			string from_string = line.substr (0, divider[0]);
-			trim (from_string);
+			trim (from_string, std::locale::classic());
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
-			trim (to_string);
+			trim (to_string, std::locale::classic());
 
 			optional<Time> from = time (from_string);
 			optional<Time> to = time (to_string);
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 5fe9457..a685b58 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -36,6 +36,7 @@
 #include <boost/regex.hpp>
 #include <cstdio>
 #include <iostream>
+#include <locale>
 #include <vector>
 
 
@@ -226,10 +227,10 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	auto has_next = [](string line, size_t& index, string s) {
-		boost::to_lower(s);
+	auto has_next = [](string const& line, size_t& index, string s) {
+		boost::to_lower(s, std::locale::classic());
 		auto next = line.substr(index, s.size());
-		boost::to_lower(next);
+		boost::to_lower(next, std::locale::classic());
 		if (next != s) {
 			return false;
 		}
-- 
2.43.0


From ab299a34ce1a17539b4d218a58df895c0c12290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 24/54] fix: read lines from a string in time proportional to
 its length

---
 src/ssa_reader.cc     |  3 ++-
 src/subrip_reader.cc  |  3 ++-
 src/util.cc           | 19 +++++++++++--------
 src/util.h            |  2 +-
 src/web_vtt_reader.cc |  3 ++-
 5 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index eb52f62..e3afd49 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -47,7 +47,8 @@ using namespace sub;
 /** @param s Subtitle string encoded in UTF-8 */
 SSAReader::SSAReader (string s)
 {
-	this->read (boost::bind(&get_line_string, &s));
+	size_t pos = 0;
+	this->read (boost::bind(&get_line_string, &s, &pos));
 }
 
 /** @param f Subtitle file encoded in UTF-8 */
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index a685b58..206dfeb 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -54,7 +54,8 @@ using namespace sub;
 /** @param s Subtitle string encoded in UTF-8 */
 SubripReader::SubripReader (string s)
 {
-	this->read (boost::bind(&get_line_string, &s));
+	size_t pos = 0;
+	this->read (boost::bind(&get_line_string, &s, &pos));
 }
 
 /** @param f Subtitle file encoded in UTF-8 */
diff --git a/src/util.cc b/src/util.cc
index c68f3b4..32e5152 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -51,22 +51,25 @@ sub::empty_or_white_space (string s)
 	return true;
 }
 
+/** @param s String to read lines from.
+ *  @param pos Position in s to read from, which will be updated to the start of the next line.
+ */
 optional<string>
-sub::get_line_string (string* s)
+sub::get_line_string (string const* s, size_t* pos)
 {
-	if (s->length() == 0) {
+	if (*pos >= s->length()) {
 		return optional<string>();
 	}
 
-	size_t pos = s->find ("\n");
-	if (pos == string::npos) {
-		string const c = *s;
-		*s = "";
+	size_t const end = s->find ("\n", *pos);
+	if (end == string::npos) {
+		string const c = s->substr (*pos);
+		*pos = s->length ();
 		return c;
 	}
 
-	string const c = s->substr (0, pos);
-	s->erase (0, pos + 1);
+	string const c = s->substr (*pos, end - *pos);
+	*pos = end + 1;
 	return c;
 }
 
diff --git a/src/util.h b/src/util.h
index 28da387..61c50a1 100644
--- a/src/util.h
+++ b/src/util.h
@@ -34,7 +34,7 @@ class Reader;
 extern bool empty_or_white_space (std::string s);
 extern void remove_unicode_bom (boost::optional<std::string>& line);
 extern boost::optional<std::string> get_line_file (FILE* f);
-extern boost::optional<std::string> get_line_string (std::string* s);
+extern boost::optional<std::string> get_line_string (std::string const* s, size_t* pos);
 extern void dump (std::shared_ptr<const Reader> read, std::ostream& os);
 
 }
diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..d566929 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -45,7 +45,8 @@ WebVTTReader::WebVTTReader(FILE* file)
 
 WebVTTReader::WebVTTReader(string subs)
 {
-	this->read(boost::bind(&get_line_string, &subs));
+	size_t pos = 0;
+	this->read(boost::bind(&get_line_string, &subs, &pos));
 }
 
 
-- 
2.43.0


From aaf6c0efd56785af1122d3fc8f6463c74b535b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 25/54] fix: reassemble SSA text with many commas in time
 proportional to its length

---
 src/ssa_reader.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index e3afd49..df3685a 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -509,10 +509,11 @@ SSAReader::read (function<optional<string> ()> get_line)
 				/* There may be commas in the subtitle part; reassemble any extra parts
 				   from when we just split it.
 				*/
-				while (event.size() > event_format.size()) {
-					string const ex = event.back ();
-					event.pop_back ();
-					event.back() += "," + ex;
+				if (event.size() > event_format.size()) {
+					for (size_t i = event_format.size(); i < event.size(); ++i) {
+						event[event_format.size() - 1] += "," + event[i];
+					}
+					event.resize (event_format.size());
 				}
 
 				SUB_ASSERT (!event.empty());
-- 
2.43.0


From f2260752c57bfd68a6d1e0ccb5266c35fc32ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 26/54] fix: make the default colour of SSA styles white, in
 the range that Colour uses

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index df3685a..db33b06 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -85,7 +85,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -96,7 +96,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From ac9103beb7dd14999cea9f9c2a25f45a1ada64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 27/54] fix: ignore unknown sections of SSA files

---
 src/ssa_reader.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index db33b06..96ccb8b 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -438,7 +438,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 	enum {
 		INFO,
 		STYLES,
-		EVENTS
+		EVENTS,
+		OTHER
 	} part = INFO;
 
 	int play_res_x = 288;
@@ -468,10 +469,16 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = STYLES;
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
+			} else {
+				part = OTHER;
 			}
 			continue;
 		}
 
+		if (part == OTHER) {
+			continue;
+		}
+
 		size_t const colon = line->find (":");
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
-- 
2.43.0


From 2ebc36e7f02399b0c3b4a3c6d670e56f26ec4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 28/54] fix: take any zero SSA event margin as none, and keep
 margins when an override moves centred text

---
 src/ssa_reader.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 96ccb8b..3048481 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -562,22 +562,20 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							left_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-- 
2.43.0


From dbac9d5cc48805a26c1f71d7e25111238bf2d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 29/54] fix: do not take other SSA tags that start with \fs or
 \c for font sizes and colours

---
 src/ssa_reader.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 3048481..6cb0bc3 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -291,10 +291,9 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
-	} else if (boost::starts_with(tag, "\\fs")) {
-		SUB_ASSERT (tag.length() > 3);
+	} else if (boost::starts_with(tag, "\\fs") && tag.length() > 3 && tag[3] >= '0' && tag[3] <= '9') {
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-	} else if (boost::starts_with(tag, "\\c")) {
+	} else if (tag == "\\c" || boost::starts_with(tag, "\\c&")) {
 		/* \c&Hbbggrr& */
 		if (tag.length() > 2) {
 			sub.colour = h_colour(tag.substr(2, tag.length() - 3));
-- 
2.43.0


From 78aa08af2e41865191ee4e0c4be28b2b3233db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 30/54] fix: handle every SSA section in the switch

---
 src/ssa_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 6cb0bc3..ad88a0a 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -585,6 +585,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 					}
 				}
 			}
+			break;
+		case OTHER:
+			break;
 		}
 
 	}
-- 
2.43.0


From 7806d316a4a5ed2cd80e14332d539a4884512626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 31/54] fix: strip right-to-left embedding from every run of a
 SubRip line

---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 206dfeb..49d8e15 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -319,11 +319,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
@@ -331,6 +326,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 void
 SubripReader::maybe_content (RawSubtitle& p)
 {
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (p.text, "\xe2\x80\xab", "");
+
 	if (!p.text.empty ()) {
 		_subs.push_back (p);
 		p.text.clear ();
-- 
2.43.0


From 4887175e677a27130f073bc4aad77054377f1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 32/54] fix: close SubRip files that cannot be read

---
 src/reader_factory.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..2eb68d4 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -53,9 +53,8 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".srt") {
 		FILE* f = fopen (file_name.string().c_str(), "r");
 		SUB_ASSERT (f);
-		shared_ptr<Reader> r (new SubripReader(f));
-		fclose (f);
-		return r;
+		shared_ptr<FILE> closer (f, fclose);
+		return shared_ptr<Reader> (new SubripReader(f));
 	}
 
 	return shared_ptr<Reader> ();
-- 
2.43.0


From 382591664d966c3174b0bb1b365b88b73693933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 33/54] fix: round font sizes in points rather than truncating
 them

---
 src/font_size.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/font_size.cc b/src/font_size.cc
index 00a74cf..e7689a4 100644
--- a/src/font_size.cc
+++ b/src/font_size.cc
@@ -18,6 +18,7 @@
 */
 
 #include "font_size.h"
+#include <cmath>
 
 using namespace sub;
 
@@ -38,7 +39,7 @@ FontSize::points (int screen_height_in_points) const
 		return _points.get ();
 	}
 
-	return _proportional.get() * screen_height_in_points;
+	return rint (_proportional.get() * screen_height_in_points);
 }
 
 FontSize
-- 
2.43.0


From a697e850fa8abf8bf3899adc792e626af3b07f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 34/54] fix: do not truncate the frame rate of 23.976fps binary
 STL files to 23

---
 src/stl_binary_reader.cc | 3 +--
 src/stl_binary_reader.h  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 934373f..7e747c0 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -25,7 +25,6 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
 #include <cmath>
-#include <iomanip>
 #include <iostream>
 #include <locale>
 #include <sstream>
@@ -380,7 +379,7 @@ STLBinaryReader::metadata () const
 
 	std::ostringstream frame_rate_string;
 	frame_rate_string.imbue (std::locale::classic());
-	frame_rate_string << std::setprecision(9) << frame_rate;
+	frame_rate_string << frame_rate;
 
 	m["Code page number"] = std::to_string (code_page_number);
 	m["Frame rate"] = frame_rate_string.str ();
diff --git a/src/stl_binary_reader.h b/src/stl_binary_reader.h
index 75e328a..8bac607 100644
--- a/src/stl_binary_reader.h
+++ b/src/stl_binary_reader.h
@@ -41,7 +41,7 @@ public:
 	std::map<std::string, std::string> metadata () const override;
 
 	int code_page_number;
-	int frame_rate;
+	float frame_rate;
 	DisplayStandard display_standard;
 	LanguageGroup language_group;
 	Language language;
-- 
2.43.0


From 5bee6bfeedbb07d3edfb396abd7f853aeedb798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 35/54] fix: strip line ends from all the lines of context of
 an error

---
 src/subrip_reader.cc  | 1 +
 src/web_vtt_reader.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 49d8e15..a3e754b 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -125,6 +125,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 				for (int i = 0; i < 2; ++i) {
 					optional<string> ex = get_line ();
 					if (ex) {
+						trim_right_if (*ex, boost::is_any_of ("\n\r"));
 						_context.push_back (*ex);
 					}
 				}
diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index d566929..c514134 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -105,6 +105,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 					for (int i = 0; i < 2; ++i) {
 						auto ex = get_line();
 						if (ex) {
+							trim_right_if(*ex, boost::is_any_of("\n\r"));
 							_context.push_back(*ex);
 						}
 					}
-- 
2.43.0


From bf5a89de3cb550fc70efd2143578aaf93eda9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:14 +0000
Subject: [PATCH 36/54] fix: do not allow the global locale's thousands
 separators in SubRip and text STL numbers

---
 src/stl_text_reader.cc |  6 +++---
 src/subrip_reader.cc   |  9 ++++-----
 src/util.cc            | 21 +++++++++++++++++++++
 src/util.h             |  1 +
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 2f6f408..94df2ca 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -19,6 +19,7 @@
 
 #include "stl_text_reader.h"
 #include "compose.hpp"
+#include "util.h"
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <vector>
@@ -34,7 +35,6 @@ using boost::algorithm::trim;
 using boost::algorithm::starts_with;
 using boost::is_any_of;
 using boost::optional;
-using boost::lexical_cast;
 using namespace sub;
 
 STLTextReader::STLTextReader (istream& in)
@@ -147,7 +147,7 @@ STLTextReader::time (string t) const
 		return optional<Time> ();
 	}
 
-	return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	return sub::Time::from_hmsf (string_to_int (b[0]), string_to_int (b[1]), string_to_int (b[2]), string_to_int (b[3]));
 }
 
 void
@@ -162,7 +162,7 @@ STLTextReader::set (string name, string value)
 	} else if (name == "$Underlined") {
 		_subtitle.underline = value == "True";
 	} else if (name == "$FontSize") {
-		_subtitle.font_size.set_points (lexical_cast<int> (value));
+		_subtitle.font_size.set_points (string_to_int (value));
 	}
 }
 
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index a3e754b..a9fe2cd 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -44,7 +44,6 @@ using std::string;
 using std::vector;
 using std::cout;
 using std::hex;
-using boost::lexical_cast;
 using boost::to_upper;
 using boost::optional;
 using boost::function;
@@ -196,28 +195,28 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 	int h, m, s, ms;
 
 	try {
-		h = lexical_cast<int>(a[0]);
+		h = string_to_int(a[0]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer hour value");
 		return {};
 	}
 
 	try {
-		m = lexical_cast<int>(a[1]);
+		m = string_to_int(a[1]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer minute value");
 		return {};
 	}
 
 	try {
-		s = lexical_cast<int>(b[0]);
+		s = string_to_int(b[0]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer second value");
 		return {};
 	}
 
 	try {
-		ms = lexical_cast<int>(b[1]);
+		ms = string_to_int(b[1]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer millisecond value");
 		return {};
diff --git a/src/util.cc b/src/util.cc
index 32e5152..17365be 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -21,7 +21,10 @@
 #include "reader.h"
 #include "subtitle.h"
 #include "collect.h"
+#include <boost/lexical_cast.hpp>
+#include <locale>
 #include <memory>
+#include <sstream>
 #include <string>
 #include <iostream>
 #include <cstdio>
@@ -92,6 +95,24 @@ sub::get_line_file (FILE* f)
 	return line;
 }
 
+/** Convert a string to an int in the same way whatever the global locale; lexical_cast
+ *  would allow for that locale's thousands separators.
+ *  @throw boost::bad_lexical_cast if s is not entirely an int.
+ */
+int
+sub::string_to_int (string s)
+{
+	std::istringstream t (s);
+	t.imbue (std::locale::classic());
+	t.unsetf (std::ios::skipws);
+	int v;
+	if (!(t >> v) || t.peek() != std::istringstream::traits_type::eof()) {
+		throw boost::bad_lexical_cast ();
+	}
+
+	return v;
+}
+
 void
 sub::remove_unicode_bom (optional<string>& line)
 {
diff --git a/src/util.h b/src/util.h
index 61c50a1..c9d6155 100644
--- a/src/util.h
+++ b/src/util.h
@@ -35,6 +35,7 @@ extern bool empty_or_white_space (std::string s);
 extern void remove_unicode_bom (boost::optional<std::string>& line);
 extern boost::optional<std::string> get_line_file (FILE* f);
 extern boost::optional<std::string> get_line_string (std::string const* s, size_t* pos);
+extern int string_to_int (std::string s);
 extern void dump (std::shared_ptr<const Reader> read, std::ostream& os);
 
 }
-- 
2.43.0


From 91beca32d8da126536142678653d19761ed35016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 37/54] fix: refuse SSA times that are not made of numbers

---
 src/ssa_reader.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ad88a0a..d95cc11 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -25,6 +25,7 @@
 #include "compose.hpp"
 #include <boost/algorithm/string.hpp>
 #include <boost/bind/bind.hpp>
+#include <boost/lexical_cast.hpp>
 #include <cstdint>
 #include <cstdlib>
 #include <iostream>
@@ -219,16 +220,20 @@ SSAReader::parse_time (string t) const
 	vector<string> bits;
 	split (bits, t, is_any_of (":."));
 	SUB_ASSERT (bits.size() == 4);
-	int const centiseconds = raw_convert<int> (bits[3]);
+	vector<int> numbers;
+	for (auto& bit: bits) {
+		trim (bit, std::locale::classic());
+		try {
+			numbers.push_back (string_to_int(bit));
+		} catch (boost::bad_lexical_cast &) {
+			throw SSAError(String::compose("Badly formatted time %1", t));
+		}
+	}
+	int const centiseconds = numbers[3];
 	if (std::abs(int64_t(centiseconds)) > std::numeric_limits<int>::max() / 10) {
 		throw SSAError(String::compose("Time out of range %1", t));
 	}
-	return Time::from_hms (
-		raw_convert<int> (bits[0]),
-		raw_convert<int> (bits[1]),
-		raw_convert<int> (bits[2]),
-		centiseconds * 10
-		);
+	return Time::from_hms (numbers[0], numbers[1], numbers[2], centiseconds * 10);
 }
 
 
-- 
2.43.0


From 08f96778e374e00facec6af9b97d2bee8b22dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:38 +0000
Subject: [PATCH 38/54] fix: refuse an empty WebVTT file, as it has no header

---
 src/web_vtt_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index c514134..5666762 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -153,5 +153,10 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 		}
 
 	}
+
+	if (state == State::HEADER) {
+		/* There was nothing at all */
+		throw WebVTTHeaderError();
+	}
 }
 
-- 
2.43.0


From 54c5632e723436c88a9d650df6fd7c51e7c2e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 39/54] fix: report errors in reading files rather than taking
 them for the end of the file

---
 src/stl_text_reader.cc | 5 +++++
 src/util.cc            | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 94df2ca..19a30fe 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -22,6 +22,7 @@
 #include "util.h"
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
+#include <stdexcept>
 #include <vector>
 #include <iostream>
 #include <locale>
@@ -135,6 +136,10 @@ STLTextReader::STLTextReader (istream& in)
 			maybe_push ();
 		}
 	}
+
+	if (in.bad ()) {
+		throw std::runtime_error ("could not read STL file");
+	}
 }
 
 optional<Time>
diff --git a/src/util.cc b/src/util.cc
index 17365be..2563ab5 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -25,6 +25,7 @@
 #include <locale>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <cstdio>
@@ -88,6 +89,10 @@ sub::get_line_file (FILE* f)
 		}
 	}
 
+	if (ferror(f)) {
+		throw std::runtime_error ("could not read subtitle file");
+	}
+
 	if (line.empty()) {
 		return optional<string> ();
 	}
-- 
2.43.0


From a8cd5952be8db397c4bcf1f060546d6980352545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 40/54] fix: give an error when a STL file to be read does not
 exist

---
 src/reader_factory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 2eb68d4..217d574 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -40,6 +40,7 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".stl") {
 		/* Check the start of the DFC */
 		ifstream f (file_name.string().c_str ());
+		SUB_ASSERT (f);
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-- 
2.43.0


From f1133b81b03d5943e0c0e6a92489867468915812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:32 +0000
Subject: [PATCH 41/54] fix: do not take a text STL file starting with the
 comment "// STL" for a binary one

---
 src/reader_factory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 217d574..5dc8ba4 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -38,13 +38,13 @@ sub::reader_factory (boost::filesystem::path file_name)
 	transform (ext.begin(), ext.end(), ext.begin(), ::tolower);
 
 	if (ext == ".stl") {
-		/* Check the start of the DFC */
+		/* Check the start of the DFC, and that this is not just a comment in a text file */
 		ifstream f (file_name.string().c_str ());
 		SUB_ASSERT (f);
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
+		if (f.gcount() == 11 && !(buffer[0] == '/' && buffer[1] == '/') && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
 		} else {
 			return shared_ptr<Reader> (new STLTextReader (f));
-- 
2.43.0


From 73cc7c615054b117ef2de9710bd05c9ccaa6f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 42/54] fix: do not take a WebVTT cue identifier which starts
 with NOTE for a note

---
 src/web_vtt_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 5666762..c568d37 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -92,7 +92,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From 9da280236fde69dd79689f8180d51bb2002cc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:21 +0000
Subject: [PATCH 43/54] fix: read WebVTT cues with any number of cue settings

---
 src/web_vtt_reader.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index c568d37..e85d5ad 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -96,12 +96,13 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-				trim_right_if(*line, boost::is_any_of(" "));
+				trim_right_if(*line, boost::is_any_of(" \t"));
 
 				vector<string> parts;
-				boost::algorithm::split(parts, *line, boost::algorithm::is_any_of(" "), boost::token_compress_on);
+				boost::algorithm::split(parts, *line, boost::algorithm::is_any_of(" \t"), boost::token_compress_on);
 
-				if (parts.size() != 3 && parts.size() != 7) {
+				/* There may be any number of cue settings after the times */
+				if (parts.size() < 3) {
 					for (int i = 0; i < 2; ++i) {
 						auto ex = get_line();
 						if (ex) {
-- 
2.43.0


From c807c6855405e52da89c9133042697baaa15bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:41 +0000
Subject: [PATCH 44/54] fix: read WebVTT times without hours

---
 src/web_vtt_reader.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index e85d5ad..d1e0aa7 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -26,6 +26,7 @@
 #include <boost/algorithm/string_regex.hpp>
 #include <boost/bind/bind.hpp>
 #include <boost/regex.hpp>
+#include <algorithm>
 #include <iostream>
 #include <vector>
 
@@ -37,6 +38,19 @@ using boost::optional;
 using namespace sub;
 
 
+static
+optional<Time>
+convert_time(string t, string* expected)
+{
+	/* The hours may be left out */
+	if (std::count(t.begin(), t.end(), ':') == 1) {
+		t = "00:" + t;
+	}
+
+	return SubripReader::convert_time(t, ".", expected);
+}
+
+
 WebVTTReader::WebVTTReader(FILE* file)
 {
 	this->read(boost::bind(&get_line_file, file));
@@ -114,13 +128,13 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 				}
 
 				string expected;
-				auto from = SubripReader::convert_time(parts[0], ".", &expected);
+				auto from = convert_time(parts[0], &expected);
 				if (!from) {
 					throw WebVTTError(parts[0], expected, _context);
 				}
 				rs.from = *from;
 
-				auto to = SubripReader::convert_time(parts[2], ".", &expected);
+				auto to = convert_time(parts[2], &expected);
 				if (!to) {
 					throw WebVTTError(parts[2], expected, _context);
 				}
-- 
2.43.0


From fc7f2d6cf6947ddbd54365610825a85d8329b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 45/54] fix: do not refuse SubRip font tags which have no
 colour

---
 src/subrip_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index a9fe2cd..e8546b4 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -270,7 +270,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 				++i;
 			}
 			++i;
-			if (boost::regex_search(tag, match, re)) {
+			if (!boost::icontains(tag, "color", std::locale::classic())) {
+				/* Some other attribute, such as a face or size, which changes no colour */
+				_colours.push_back(p.colour);
+			} else if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
 					_colours.push_back(p.colour);
-- 
2.43.0


From e0dfcd6cda4cc92f3a314a2e96e887de2c8c7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 46/54] fix: do not lose hard spaces and backslashes in SSA
 text

---
 src/ssa_reader.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index d95cc11..f906ee3 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -401,12 +401,23 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 				} else {
 					current.vertical_position.proportional = current.vertical_position.proportional.get() + line_size;
 				}
+			} else if (c == 'h') {
+				/* Hard space */
+				current.text += "\xc2\xa0";
+			} else {
+				/* A backslash with no special meaning; look at what follows it again */
+				current.text += '\\';
+				--i;
 			}
 			state = TEXT;
 			break;
 		}
 	}
 
+	if (state == BACKSLASH) {
+		current.text += '\\';
+	}
+
 	if (!current.text.empty ()) {
 		subs.push_back (current);
 	}
-- 
2.43.0


From c5eb81334981247c077081394544bbe7a89c958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 47/54] fix: use the right alignments for styles in SSA's [V4
 Styles] section

---
 src/ssa_reader.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index f906ee3..e8e3ed8 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -95,7 +95,8 @@ public:
 		, vertical_margin (0)
 	{}
 
-	Style (string format_line, string style_line)
+	/** @param v4 true if the style is from a [V4 Styles] section, false for [V4+ Styles] */
+	Style (string format_line, string style_line, bool v4)
 		: font_size (72)
 		, primary_colour (1, 1, 1)
 		, bold (false)
@@ -138,6 +139,9 @@ public:
 					effect = SHADOW;
 				}
 			} else if (keys[i] == "Alignment") {
+				if (v4) {
+					style[i] = v4_plus_alignment (style[i]);
+				}
 				if (style[i] == "7" || style[i] == "8" || style[i] == "9") {
 					vertical_reference = TOP_OF_SCREEN;
 				} else if (style[i] == "4" || style[i] == "5" || style[i] == "6") {
@@ -179,6 +183,28 @@ public:
 	int right_margin = 0;
 
 private:
+	/** Convert an alignment from a [V4 Styles] section, where 1-3 are at the bottom of the screen,
+	 *  5-7 at the top and 9-11 in the middle, to the one used in a [V4+ Styles] section.
+	 */
+	static string v4_plus_alignment (string a)
+	{
+		if (a == "5") {
+			return "7";
+		} else if (a == "6") {
+			return "8";
+		} else if (a == "7") {
+			return "9";
+		} else if (a == "9") {
+			return "4";
+		} else if (a == "10") {
+			return "5";
+		} else if (a == "11") {
+			return "6";
+		}
+
+		return a;
+	}
+
 	Colour colour (string c) const
 	{
 		if (c.length() > 0 && c[0] == '&') {
@@ -461,6 +487,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 	int play_res_y = 288;
 	map<string, Style> styles;
 	string style_format_line;
+	bool v4_styles = false;
 	vector<string> event_format;
 
 	while (true) {
@@ -482,6 +509,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = INFO;
 			} else if (line.get() == "[V4 Styles]" || line.get() == "[V4+ Styles]") {
 				part = STYLES;
+				v4_styles = *line == "[V4 Styles]";
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
 			} else {
@@ -513,7 +541,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 				style_format_line = body;
 			} else if (type == "Style") {
 				SUB_ASSERT (!style_format_line.empty ());
-				Style s (style_format_line, body);
+				Style s (style_format_line, body, v4_styles);
 				styles[s.name] = s;
 			}
 			break;
-- 
2.43.0


From 13f515f8658052ecbc86c7799236dba6666b8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 48/54] fix: obey \fn tags in SSA text

---
 src/ssa_reader.cc | 7 +++++++
 src/ssa_reader.h  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index e8e3ed8..13e57d1 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -322,6 +322,10 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
+	} else if (tag == "\\fn") {
+		sub.font = context.font;
+	} else if (boost::starts_with(tag, "\\fn")) {
+		sub.font = tag.substr(3);
 	} else if (boost::starts_with(tag, "\\fs") && tag.length() > 3 && tag[3] >= '0' && tag[3] <= '9') {
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
 	} else if (tag == "\\c" || boost::starts_with(tag, "\\c&")) {
@@ -623,6 +627,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 						}
 					} else if (event_format[i] == "Text") {
 						auto context = Context(play_res_x, play_res_y, style ? style->primary_colour : Colour(1, 1, 1), left_margin, right_margin);
+						if (style) {
+							context.font = style->font_name;
+						}
 						for (auto j: parse_line(sub, event[i], context)) {
 							_subs.push_back (j);
 						}
diff --git a/src/ssa_reader.h b/src/ssa_reader.h
index e8c2a52..90111fb 100644
--- a/src/ssa_reader.h
+++ b/src/ssa_reader.h
@@ -57,6 +57,8 @@ public:
 		Colour primary_colour;
 		int left_margin;
 		int right_margin;
+		/** font name from the style, if it has one */
+		boost::optional<std::string> font;
 
 		void update_horizontal_position(RawSubtitle& sub) const;
 	};
-- 
2.43.0


From db364e466aef09a9107a2f10ac00c04a6c9d5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 49/54] fix: keep the fractions of font sizes in SSA styles

---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 13e57d1..fa86c41 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -123,7 +123,7 @@ public:
 			} else if (keys[i] == "Fontname") {
 				font_name = style[i];
 			} else if (keys[i] == "Fontsize") {
-				font_size = raw_convert<int> (style[i]);
+				font_size = raw_convert<float> (style[i]);
 			} else if (keys[i] == "PrimaryColour") {
 				primary_colour = colour (style[i]);
 			} else if (keys[i] == "BackColour") {
@@ -168,7 +168,7 @@ public:
 
 	string name;
 	optional<string> font_name;
-	int font_size; ///< points
+	float font_size; ///< points
 	Colour primary_colour;
 	/** outline colour */
 	optional<Colour> back_colour;
@@ -600,7 +600,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 							continue;
 						}
 						sub.font = style->font_name;
-						sub.font_size = FontSize::from_proportional(static_cast<float>(style->font_size) / play_res_y);
+						sub.font_size = FontSize::from_proportional(style->font_size / play_res_y);
 						sub.colour = style->primary_colour;
 						sub.effect_colour = style->back_colour;
 						sub.bold = style->bold;
-- 
2.43.0


From 9b1880c3616227316ca3c528da98842d7c6a1596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 50/54] fix: allow any case for the color attribute of SubRip
 font tags

---
 src/subrip_reader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index e8546b4..d993856 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -262,7 +262,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			p.underline = false;
 		} else if (has_next(t, i, "<font") || has_next(t, i, "<Font")) {
 			maybe_content (p);
-			boost::regex re (".*color=[\"\']?#([[:xdigit:]]+)[\"\']?");
+			boost::regex re (".*color=[\"\']?#([[:xdigit:]]+)[\"\']?", boost::regex::icase);
 			boost::smatch match;
 			string tag;
 			while (i < t.size() && t[i] != '>') {
@@ -290,7 +290,8 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*,"
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*,"
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*"
-					"\\)\""
+					"\\)\"",
+					boost::regex::icase
 					);
 				if (boost::regex_search (tag, match, re) && match.size() == 5) {
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
-- 
2.43.0


From 5339c82ad9acd3cf8dbff2586c69a9f83c949b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:58 +0000
Subject: [PATCH 51/54] fix: do not take a font face with color in its name for
 a colour

---
 src/subrip_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index d993856..bc42068 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -270,7 +270,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 				++i;
 			}
 			++i;
-			if (!boost::icontains(tag, "color", std::locale::classic())) {
+			if (!boost::regex_search(tag, boost::regex("color[[:space:]]*=", boost::regex::icase))) {
 				/* Some other attribute, such as a face or size, which changes no colour */
 				_colours.push_back(p.colour);
 			} else if (boost::regex_search(tag, match, re)) {
-- 
2.43.0


From 8669bb1971f83fb16ceb60f81794e68bd29e5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:08 +0000
Subject: [PATCH 52/54] fix: don't count an unknown SSA tag such as {\nosuch}
 as a line break

---
 src/ssa_reader.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index fa86c41..7fef105 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -378,15 +378,8 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-	/* Count the number of line breaks */
+	/* Number of line breaks seen */
 	int line_breaks = 0;
-	if (line.length() > 0) {
-		for (size_t i = 0; i < line.length() - 1; ++i) {
-			if (line[i] == '\\' && (line[i+1] == 'n' || line[i+1] == 'N')) {
-				++line_breaks;
-			}
-		}
-	}
 
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
@@ -425,6 +418,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 					subs.push_back (current);
 					current.text = "";
 				}
+				++line_breaks;
 				/* Move down one line (1.2 times the font size) */
 				if (current.vertical_position.reference.get() == BOTTOM_OF_SCREEN) {
 					current.vertical_position.proportional = current.vertical_position.proportional.get() - line_size;
-- 
2.43.0


From d62730a531dfcd12ada44e5cec073ef08f15ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:52 +0000
Subject: [PATCH 53/54] fix: keep an SSA \pos when an alignment comes after it
 in the event

---
 src/ssa_reader.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 7fef105..4cac7fa 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -381,6 +381,9 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 	/* Number of line breaks seen */
 	int line_breaks = 0;
 
+	/* true if we have seen a \pos */
+	bool positioned = false;
+
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
 
@@ -402,7 +405,11 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 					subs.push_back (current);
 					current.text = "";
 				}
-				parse_tag(current, tag, context);
+				/* An alignment after a position must not undo that position */
+				if (!positioned || !starts_with(tag, "\\an")) {
+					parse_tag(current, tag, context);
+				}
+				positioned = positioned || starts_with(tag, "\\pos");
 				tag = "";
 			}
 
-- 
2.43.0


From bd42258cf7196136cb8d08c9edbcd919c6bf6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:39 +0000
Subject: [PATCH 54/54] fix: end the run of text before an override in braces
 in SubRip

---
 src/subrip_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index bc42068..13946da 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -310,6 +310,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			}
 			p.colour = _colours.back();
 		} else if (has_next(t, i, "{\\")) {
+			maybe_content (p);
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
 				ssa += t[i];
-- 
2.43.0

