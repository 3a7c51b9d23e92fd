// The codes of EBU Tech 3264, written down independently of libsub's tables.
#ifndef VERIF_STL_CODES_H
#define VERIF_STL_CODES_H

#include "stl_binary_tables.h"
#include <string>
#include <vector>

namespace h {

struct LanguageCode { char const* code; sub::Language value; char const* name; };

static const LanguageCode language_codes[] = {
	{ "00", sub::LANGUAGE_UNKNOWN, "Unknown" },
	{ "01", sub::LANGUAGE_ALBANIAN, "Albanian" },
	{ "02", sub::LANGUAGE_BRETON, "Breton" },
	{ "03", sub::LANGUAGE_CATALAN, "Catalan" },
	{ "04", sub::LANGUAGE_CROATIAN, "Croatian" },
	{ "05", sub::LANGUAGE_WELSH, "Welsh" },
	{ "06", sub::LANGUAGE_CZECH, "Czech" },
	{ "07", sub::LANGUAGE_DANISH, "Danish" },
	{ "08", sub::LANGUAGE_GERMAN, "German" },
	{ "09", sub::LANGUAGE_ENGLISH, "English" },
	{ "0A", sub::LANGUAGE_SPANISH, "Spanish" },
	{ "0B", sub::LANGUAGE_ESPERANTO, "Esperanto" },
	{ "0C", sub::LANGUAGE_ESTONIAN, "Estonian" },
	{ "0D", sub::LANGUAGE_BASQUE, "Basque" },
	{ "0E", sub::LANGUAGE_FAROESE, "Faroese" },
	{ "0F", sub::LANGUAGE_FRENCH, "French" },
	{ "10", sub::LANGUAGE_FRISIAN, "Frisian" },
	{ "11", sub::LANGUAGE_IRISH, "Irish" },
	{ "12", sub::LANGUAGE_GAELIC, "Gaelic" },
	{ "13", sub::LANGUAGE_GALACIAN, "Galacian" },
	{ "14", sub::LANGUAGE_ICELANDIC, "Icelandic" },
	{ "15", sub::LANGUAGE_ITALIAN, "Italian" },
	{ "16", sub::LANGUAGE_LAPPISH, "Lappish" },
	{ "17", sub::LANGUAGE_LATIN, "Latin" },
	{ "18", sub::LANGUAGE_LATVIAN, "Latvian" },
	{ "19", sub::LANGUAGE_LUXEMBORGIAN, "Luxemborgian" },
	{ "1A", sub::LANGUAGE_LITHUANIAN, "Lithuanian" },
	{ "1B", sub::LANGUAGE_HUNGARIAN, "Hungarian" },
	{ "1C", sub::LANGUAGE_MALTESE, "Maltese" },
	{ "1D", sub::LANGUAGE_DUTCH, "Dutch" },
	{ "1E", sub::LANGUAGE_NORWEGIAN, "Norwegian" },
	{ "1F", sub::LANGUAGE_OCCITAN, "Occitan" },
	{ "20", sub::LANGUAGE_POLISH, "Polish" },
	{ "21", sub::LANGUAGE_PORTUGESE, "Portugese" },
	{ "22", sub::LANGUAGE_ROMANIAN, "Romanian" },
	{ "23", sub::LANGUAGE_ROMANSH, "Romansh" },
	{ "24", sub::LANGUAGE_SERBIAN, "Serbian" },
	{ "25", sub::LANGUAGE_SLOVAK, "Slovak" },
	{ "26", sub::LANGUAGE_SLOVENIAN, "Slovenian" },
	{ "27", sub::LANGUAGE_FINNISH, "Finnish" },
	{ "28", sub::LANGUAGE_SWEDISH, "Swedish" },
	{ "29", sub::LANGUAGE_TURKISH, "Turkish" },
	{ "2A", sub::LANGUAGE_FLEMISH, "Flemish" },
	{ "2B", sub::LANGUAGE_WALLON, "Wallon" },
	{ "7F", sub::LANGUAGE_AMHARIC, "Amharic" },
	{ "7E", sub::LANGUAGE_ARABIC, "Arabic" },
	{ "7D", sub::LANGUAGE_ARMENIAN, "Armenian" },
	{ "7C", sub::LANGUAGE_ASSAMESE, "Assamese" },
	{ "7B", sub::LANGUAGE_AZERBAIJANI, "Azerbaijani" },
	{ "7A", sub::LANGUAGE_BAMBORA, "Bambora" },
	{ "79", sub::LANGUAGE_BIELORUSSIAN, "Bielorussian" },
	{ "78", sub::LANGUAGE_BENGALI, "Bengali" },
	{ "77", sub::LANGUAGE_BULGARIAN, "Bulgarian" },
	{ "76", sub::LANGUAGE_BURMESE, "Burmese" },
	{ "75", sub::LANGUAGE_CHINESE, "Chinese" },
	{ "74", sub::LANGUAGE_CHURASH, "Churash" },
	{ "73", sub::LANGUAGE_DARI, "Dari" },
	{ "72", sub::LANGUAGE_FULANI, "Fulani" },
	{ "71", sub::LANGUAGE_GEORGIAN, "Georgian" },
	{ "70", sub::LANGUAGE_GREEK, "Greek" },
	{ "6F", sub::LANGUAGE_GUJURATI, "Gujurati" },
	{ "6E", sub::LANGUAGE_GURANI, "Gurani" },
	{ "6D", sub::LANGUAGE_HAUSA, "Hausa" },
	{ "6C", sub::LANGUAGE_HEBREW, "Hebrew" },
	{ "6B", sub::LANGUAGE_HINDI, "Hindi" },
	{ "6A", sub::LANGUAGE_INDONESIAN, "Indonesian" },
	{ "69", sub::LANGUAGE_JAPANESE, "Japanese" },
	{ "68", sub::LANGUAGE_KANNADA, "Kannada" },
	{ "67", sub::LANGUAGE_KAZAKH, "Kazakh" },
	{ "66", sub::LANGUAGE_KHMER, "Khmer" },
	{ "65", sub::LANGUAGE_KOREAN, "Korean" },
	{ "64", sub::LANGUAGE_LAOTIAN, "Laotian" },
	{ "63", sub::LANGUAGE_MACEDONIAN, "Macedonian" },
	{ "62", sub::LANGUAGE_MALAGASAY, "Malagasay" },
	{ "61", sub::LANGUAGE_MALAYSIAN, "Malaysian" },
	{ "60", sub::LANGUAGE_MOLDAVIAN, "Moldavian" },
	{ "5F", sub::LANGUAGE_MARATHI, "Marathi" },
	{ "5E", sub::LANGUAGE_NDEBELE, "Ndebele" },
	{ "5D", sub::LANGUAGE_NEPALI, "Nepali" },
	{ "5C", sub::LANGUAGE_ORIYA, "Oriya" },
	{ "5B", sub::LANGUAGE_PAPAMIENTO, "Papamiento" },
	{ "5A", sub::LANGUAGE_PERSIAN, "Persian" },
	{ "59", sub::LANGUAGE_PUNJABI, "Punjabi" },
	{ "58", sub::LANGUAGE_PUSHTU, "Pushtu" },
	{ "57", sub::LANGUAGE_QUECHUA, "Quechua" },
	{ "56", sub::LANGUAGE_RUSSIAN, "Russian" },
	{ "55", sub::LANGUAGE_RUTHENIAN, "Ruthenian" },
	{ "54", sub::LANGUAGE_SERBO_CROAT, "Serbo Croat" },
	{ "53", sub::LANGUAGE_SHONA, "Shona" },
	{ "52", sub::LANGUAGE_SINHALESE, "Sinhalese" },
	{ "51", sub::LANGUAGE_SOMALI, "Somali" },
	{ "50", sub::LANGUAGE_SRANAN_TONGO, "Sranan Tongo" },
	{ "4F", sub::LANGUAGE_SWAHILI, "Swahili" },
	{ "4E", sub::LANGUAGE_TADZHIK, "Tadzhik" },
	{ "4D", sub::LANGUAGE_TAMIL, "Tamil" },
	{ "4C", sub::LANGUAGE_TATAR, "Tatar" },
	{ "4B", sub::LANGUAGE_TELUGU, "Telugu" },
	{ "4A", sub::LANGUAGE_THAI, "Thai" },
	{ "49", sub::LANGUAGE_UKRANIAN, "Ukranian" },
	{ "48", sub::LANGUAGE_URDU, "Urdu" },
	{ "47", sub::LANGUAGE_UZBEK, "Uzbek" },
	{ "46", sub::LANGUAGE_VIETNAMESE, "Vietnamese" },
	{ "45", sub::LANGUAGE_ZULU, "Zulu" },
};

template <class E> struct Code { char const* code; E value; char const* name; };
template <class E> struct IntCode { int code; E value; char const* name; };

static const Code<sub::LanguageGroup> language_group_codes[] = {
	{ "00", sub::LANGUAGE_GROUP_LATIN, "Latin" }, { "01", sub::LANGUAGE_GROUP_LATIN_CYRILLIC, "Latin/Cyrillic" },
	{ "02", sub::LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic" }, { "03", sub::LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek" },
	{ "04", sub::LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew" }, { "U8", sub::LANGUAGE_GROUP_UTF8, "UTF-8" },
};
static const Code<sub::DisplayStandard> display_standard_codes[] = {
	{ " ", sub::DISPLAY_STANDARD_UNDEFINED, "Undefined" }, { "0", sub::DISPLAY_STANDARD_OPEN_SUBTITLING, "Open subtitling" },
	{ "1", sub::DISPLAY_STANDARD_LEVEL_1_TELETEXT, "Level 1 teletext" }, { "2", sub::DISPLAY_STANDARD_LEVEL_2_TELETEXT, "Level 2 teletext" },
};
static const Code<sub::TimecodeStatus> timecode_status_codes[] = {
	{ "0", sub::TIMECODE_STATUS_NOT_INTENDED_FOR_USE, "Not intended for use" }, { "1", sub::TIMECODE_STATUS_INTENDED_FOR_USE, "Intended for use" },
};
static const IntCode<sub::CumulativeStatus> cumulative_codes[] = {
	{ 0, sub::CUMULATIVE_STATUS_NOT_CUMULATIVE, "Not part of a cumulative set" }, { 1, sub::CUMULATIVE_STATUS_FIRST, "First subtitle of a cumulative set" },
	{ 2, sub::CUMULATIVE_STATUS_INTERMEDIATE, "Intermediate subtitle of a cumulative set" }, { 3, sub::CUMULATIVE_STATUS_LAST, "Last subtitle of a cumulative set" },
};
static const IntCode<sub::Justification> justification_codes[] = {
	{ 0, sub::JUSTIFICATION_NONE, "No justification" }, { 1, sub::JUSTIFICATION_LEFT, "Left justification" },
	{ 2, sub::JUSTIFICATION_CENTRE, "Centre justification" }, { 3, sub::JUSTIFICATION_RIGHT, "Right justification" },
};
static const IntCode<sub::Comment> comment_codes[] = { { 0, sub::COMMENT_NO, "Not a comment" }, { 1, sub::COMMENT_YES, "Is a comment" } };

struct RateCode { char const* dfc; float fps; int nominal; };
static const RateCode rate_codes[] = { { "STL23.01", 23.976f, 24 }, { "STL24.01", 24, 24 }, { "STL25.01", 25, 25 }, { "STL30.01", 30, 30 } };

}

#endif
