package h

// Written by tools/mkcoll.py.

import "github.com/renthraysk/xtorm/collation"

var collTab = []struct {
	c    collation.Collation
	id   uint64
	name string
}{
	{collation.Big5ChineseCi, 1, "big5_chinese_ci"},
	{collation.Latin2CzechCs, 2, "latin2_czech_cs"},
	{collation.Dec8SwedishCi, 3, "dec8_swedish_ci"},
	{collation.Cp850GeneralCi, 4, "cp850_general_ci"},
	{collation.Latin1German1Ci, 5, "latin1_german1_ci"},
	{collation.Hp8EnglishCi, 6, "hp8_english_ci"},
	{collation.Koi8rGeneralCi, 7, "koi8r_general_ci"},
	{collation.Latin1SwedishCi, 8, "latin1_swedish_ci"},
	{collation.Latin2GeneralCi, 9, "latin2_general_ci"},
	{collation.Swe7SwedishCi, 10, "swe7_swedish_ci"},
	{collation.ASCIIGeneralCi, 11, "ascii_general_ci"},
	{collation.UjisJapaneseCi, 12, "ujis_japanese_ci"},
	{collation.SjisJapaneseCi, 13, "sjis_japanese_ci"},
	{collation.Cp1251BulgarianCi, 14, "cp1251_bulgarian_ci"},
	{collation.Latin1DanishCi, 15, "latin1_danish_ci"},
	{collation.HebrewGeneralCi, 16, "hebrew_general_ci"},
	{collation.Tis620ThaiCi, 18, "tis620_thai_ci"},
	{collation.EuckrKoreanCi, 19, "euckr_korean_ci"},
	{collation.Latin7EstonianCs, 20, "latin7_estonian_cs"},
	{collation.Latin2HungarianCi, 21, "latin2_hungarian_ci"},
	{collation.Koi8uGeneralCi, 22, "koi8u_general_ci"},
	{collation.Cp1251UkrainianCi, 23, "cp1251_ukrainian_ci"},
	{collation.Gb2312ChineseCi, 24, "gb2312_chinese_ci"},
	{collation.GreekGeneralCi, 25, "greek_general_ci"},
	{collation.Cp1250GeneralCi, 26, "cp1250_general_ci"},
	{collation.Latin2CroatianCi, 27, "latin2_croatian_ci"},
	{collation.GbkChineseCi, 28, "gbk_chinese_ci"},
	{collation.Cp1257LithuanianCi, 29, "cp1257_lithuanian_ci"},
	{collation.Latin5TurkishCi, 30, "latin5_turkish_ci"},
	{collation.Latin1German2Ci, 31, "latin1_german2_ci"},
	{collation.Armscii8GeneralCi, 32, "armscii8_general_ci"},
	{collation.UTF8GeneralCi, 33, "utf8_general_ci"},
	{collation.Cp1250CzechCs, 34, "cp1250_czech_cs"},
	{collation.UCS2GeneralCi, 35, "ucs2_general_ci"},
	{collation.Cp866GeneralCi, 36, "cp866_general_ci"},
	{collation.Keybcs2GeneralCi, 37, "keybcs2_general_ci"},
	{collation.MacceGeneralCi, 38, "macce_general_ci"},
	{collation.MacromanGeneralCi, 39, "macroman_general_ci"},
	{collation.Cp852GeneralCi, 40, "cp852_general_ci"},
	{collation.Latin7GeneralCi, 41, "latin7_general_ci"},
	{collation.Latin7GeneralCs, 42, "latin7_general_cs"},
	{collation.MacceBin, 43, "macce_bin"},
	{collation.Cp1250CroatianCi, 44, "cp1250_croatian_ci"},
	{collation.UTF8mb4GeneralCi, 45, "utf8mb4_general_ci"},
	{collation.UTF8mb4Bin, 46, "utf8mb4_bin"},
	{collation.Latin1Bin, 47, "latin1_bin"},
	{collation.Latin1GeneralCi, 48, "latin1_general_ci"},
	{collation.Latin1GeneralCs, 49, "latin1_general_cs"},
	{collation.Cp1251Bin, 50, "cp1251_bin"},
	{collation.Cp1251GeneralCi, 51, "cp1251_general_ci"},
	{collation.Cp1251GeneralCs, 52, "cp1251_general_cs"},
	{collation.MacromanBin, 53, "macroman_bin"},
	{collation.UTF16GeneralCi, 54, "utf16_general_ci"},
	{collation.UTF16Bin, 55, "utf16_bin"},
	{collation.UTF16leGeneralCi, 56, "utf16le_general_ci"},
	{collation.Cp1256GeneralCi, 57, "cp1256_general_ci"},
	{collation.Cp1257Bin, 58, "cp1257_bin"},
	{collation.Cp1257GeneralCi, 59, "cp1257_general_ci"},
	{collation.UTF32GeneralCi, 60, "utf32_general_ci"},
	{collation.UTF32Bin, 61, "utf32_bin"},
	{collation.UTF16leBin, 62, "utf16le_bin"},
	{collation.Binary, 63, "binary"},
	{collation.Armscii8Bin, 64, "armscii8_bin"},
	{collation.ASCIIBin, 65, "ascii_bin"},
	{collation.Cp1250Bin, 66, "cp1250_bin"},
	{collation.Cp1256Bin, 67, "cp1256_bin"},
	{collation.Cp866Bin, 68, "cp866_bin"},
	{collation.Dec8Bin, 69, "dec8_bin"},
	{collation.GreekBin, 70, "greek_bin"},
	{collation.HebrewBin, 71, "hebrew_bin"},
	{collation.Hp8Bin, 72, "hp8_bin"},
	{collation.Keybcs2Bin, 73, "keybcs2_bin"},
	{collation.Koi8rBin, 74, "koi8r_bin"},
	{collation.Koi8uBin, 75, "koi8u_bin"},
	{collation.UTF8TolowerCi, 76, "utf8_tolower_ci"},
	{collation.Latin2Bin, 77, "latin2_bin"},
	{collation.Latin5Bin, 78, "latin5_bin"},
	{collation.Latin7Bin, 79, "latin7_bin"},
	{collation.Cp850Bin, 80, "cp850_bin"},
	{collation.Cp852Bin, 81, "cp852_bin"},
	{collation.Swe7Bin, 82, "swe7_bin"},
	{collation.UTF8Bin, 83, "utf8_bin"},
	{collation.Big5Bin, 84, "big5_bin"},
	{collation.EuckrBin, 85, "euckr_bin"},
	{collation.Gb2312Bin, 86, "gb2312_bin"},
	{collation.GbkBin, 87, "gbk_bin"},
	{collation.SjisBin, 88, "sjis_bin"},
	{collation.Tis620Bin, 89, "tis620_bin"},
	{collation.UCS2Bin, 90, "ucs2_bin"},
	{collation.UjisBin, 91, "ujis_bin"},
	{collation.Geostd8GeneralCi, 92, "geostd8_general_ci"},
	{collation.Geostd8Bin, 93, "geostd8_bin"},
	{collation.Latin1SpanishCi, 94, "latin1_spanish_ci"},
	{collation.Cp932JapaneseCi, 95, "cp932_japanese_ci"},
	{collation.Cp932Bin, 96, "cp932_bin"},
	{collation.EucjpmsJapaneseCi, 97, "eucjpms_japanese_ci"},
	{collation.EucjpmsBin, 98, "eucjpms_bin"},
	{collation.Cp1250PolishCi, 99, "cp1250_polish_ci"},
	{collation.UTF16UnicodeCi, 101, "utf16_unicode_ci"},
	{collation.UTF16IcelandicCi, 102, "utf16_icelandic_ci"},
	{collation.UTF16LatvianCi, 103, "utf16_latvian_ci"},
	{collation.UTF16RomanianCi, 104, "utf16_romanian_ci"},
	{collation.UTF16SlovenianCi, 105, "utf16_slovenian_ci"},
	{collation.UTF16PolishCi, 106, "utf16_polish_ci"},
	{collation.UTF16EstonianCi, 107, "utf16_estonian_ci"},
	{collation.UTF16SpanishCi, 108, "utf16_spanish_ci"},
	{collation.UTF16SwedishCi, 109, "utf16_swedish_ci"},
	{collation.UTF16TurkishCi, 110, "utf16_turkish_ci"},
	{collation.UTF16CzechCi, 111, "utf16_czech_ci"},
	{collation.UTF16DanishCi, 112, "utf16_danish_ci"},
	{collation.UTF16LithuanianCi, 113, "utf16_lithuanian_ci"},
	{collation.UTF16SlovakCi, 114, "utf16_slovak_ci"},
	{collation.UTF16Spanish2Ci, 115, "utf16_spanish2_ci"},
	{collation.UTF16RomanCi, 116, "utf16_roman_ci"},
	{collation.UTF16PersianCi, 117, "utf16_persian_ci"},
	{collation.UTF16EsperantoCi, 118, "utf16_esperanto_ci"},
	{collation.UTF16HungarianCi, 119, "utf16_hungarian_ci"},
	{collation.UTF16SinhalaCi, 120, "utf16_sinhala_ci"},
	{collation.UTF16German2Ci, 121, "utf16_german2_ci"},
	{collation.UTF16CroatianCi, 122, "utf16_croatian_ci"},
	{collation.UTF16Unicode520Ci, 123, "utf16_unicode_520_ci"},
	{collation.UTF16VietnameseCi, 124, "utf16_vietnamese_ci"},
	{collation.UCS2UnicodeCi, 128, "ucs2_unicode_ci"},
	{collation.UCS2IcelandicCi, 129, "ucs2_icelandic_ci"},
	{collation.UCS2LatvianCi, 130, "ucs2_latvian_ci"},
	{collation.UCS2RomanianCi, 131, "ucs2_romanian_ci"},
	{collation.UCS2SlovenianCi, 132, "ucs2_slovenian_ci"},
	{collation.UCS2PolishCi, 133, "ucs2_polish_ci"},
	{collation.UCS2EstonianCi, 134, "ucs2_estonian_ci"},
	{collation.UCS2SpanishCi, 135, "ucs2_spanish_ci"},
	{collation.UCS2SwedishCi, 136, "ucs2_swedish_ci"},
	{collation.UCS2TurkishCi, 137, "ucs2_turkish_ci"},
	{collation.UCS2CzechCi, 138, "ucs2_czech_ci"},
	{collation.UCS2DanishCi, 139, "ucs2_danish_ci"},
	{collation.UCS2LithuanianCi, 140, "ucs2_lithuanian_ci"},
	{collation.UCS2SlovakCi, 141, "ucs2_slovak_ci"},
	{collation.UCS2Spanish2Ci, 142, "ucs2_spanish2_ci"},
	{collation.UCS2RomanCi, 143, "ucs2_roman_ci"},
	{collation.UCS2PersianCi, 144, "ucs2_persian_ci"},
	{collation.UCS2EsperantoCi, 145, "ucs2_esperanto_ci"},
	{collation.UCS2HungarianCi, 146, "ucs2_hungarian_ci"},
	{collation.UCS2SinhalaCi, 147, "ucs2_sinhala_ci"},
	{collation.UCS2German2Ci, 148, "ucs2_german2_ci"},
	{collation.UCS2CroatianCi, 149, "ucs2_croatian_ci"},
	{collation.UCS2Unicode520Ci, 150, "ucs2_unicode_520_ci"},
	{collation.UCS2VietnameseCi, 151, "ucs2_vietnamese_ci"},
	{collation.UCS2GeneralMySQL500Ci, 159, "ucs2_general_mysql500_ci"},
	{collation.UTF32UnicodeCi, 160, "utf32_unicode_ci"},
	{collation.UTF32IcelandicCi, 161, "utf32_icelandic_ci"},
	{collation.UTF32LatvianCi, 162, "utf32_latvian_ci"},
	{collation.UTF32RomanianCi, 163, "utf32_romanian_ci"},
	{collation.UTF32SlovenianCi, 164, "utf32_slovenian_ci"},
	{collation.UTF32PolishCi, 165, "utf32_polish_ci"},
	{collation.UTF32EstonianCi, 166, "utf32_estonian_ci"},
	{collation.UTF32SpanishCi, 167, "utf32_spanish_ci"},
	{collation.UTF32SwedishCi, 168, "utf32_swedish_ci"},
	{collation.UTF32TurkishCi, 169, "utf32_turkish_ci"},
	{collation.UTF32CzechCi, 170, "utf32_czech_ci"},
	{collation.UTF32DanishCi, 171, "utf32_danish_ci"},
	{collation.UTF32LithuanianCi, 172, "utf32_lithuanian_ci"},
	{collation.UTF32SlovakCi, 173, "utf32_slovak_ci"},
	{collation.UTF32Spanish2Ci, 174, "utf32_spanish2_ci"},
	{collation.UTF32RomanCi, 175, "utf32_roman_ci"},
	{collation.UTF32PersianCi, 176, "utf32_persian_ci"},
	{collation.UTF32EsperantoCi, 177, "utf32_esperanto_ci"},
	{collation.UTF32HungarianCi, 178, "utf32_hungarian_ci"},
	{collation.UTF32SinhalaCi, 179, "utf32_sinhala_ci"},
	{collation.UTF32German2Ci, 180, "utf32_german2_ci"},
	{collation.UTF32CroatianCi, 181, "utf32_croatian_ci"},
	{collation.UTF32Unicode520Ci, 182, "utf32_unicode_520_ci"},
	{collation.UTF32VietnameseCi, 183, "utf32_vietnamese_ci"},
	{collation.UTF8UnicodeCi, 192, "utf8_unicode_ci"},
	{collation.UTF8IcelandicCi, 193, "utf8_icelandic_ci"},
	{collation.UTF8LatvianCi, 194, "utf8_latvian_ci"},
	{collation.UTF8RomanianCi, 195, "utf8_romanian_ci"},
	{collation.UTF8SlovenianCi, 196, "utf8_slovenian_ci"},
	{collation.UTF8PolishCi, 197, "utf8_polish_ci"},
	{collation.UTF8EstonianCi, 198, "utf8_estonian_ci"},
	{collation.UTF8SpanishCi, 199, "utf8_spanish_ci"},
	{collation.UTF8SwedishCi, 200, "utf8_swedish_ci"},
	{collation.UTF8TurkishCi, 201, "utf8_turkish_ci"},
	{collation.UTF8CzechCi, 202, "utf8_czech_ci"},
	{collation.UTF8DanishCi, 203, "utf8_danish_ci"},
	{collation.UTF8LithuanianCi, 204, "utf8_lithuanian_ci"},
	{collation.UTF8SlovakCi, 205, "utf8_slovak_ci"},
	{collation.UTF8Spanish2Ci, 206, "utf8_spanish2_ci"},
	{collation.UTF8RomanCi, 207, "utf8_roman_ci"},
	{collation.UTF8PersianCi, 208, "utf8_persian_ci"},
	{collation.UTF8EsperantoCi, 209, "utf8_esperanto_ci"},
	{collation.UTF8HungarianCi, 210, "utf8_hungarian_ci"},
	{collation.UTF8SinhalaCi, 211, "utf8_sinhala_ci"},
	{collation.UTF8German2Ci, 212, "utf8_german2_ci"},
	{collation.UTF8CroatianCi, 213, "utf8_croatian_ci"},
	{collation.UTF8Unicode520Ci, 214, "utf8_unicode_520_ci"},
	{collation.UTF8VietnameseCi, 215, "utf8_vietnamese_ci"},
	{collation.UTF8GeneralMySQL500Ci, 223, "utf8_general_mysql500_ci"},
	{collation.UTF8mb4UnicodeCi, 224, "utf8mb4_unicode_ci"},
	{collation.UTF8mb4IcelandicCi, 225, "utf8mb4_icelandic_ci"},
	{collation.UTF8mb4LatvianCi, 226, "utf8mb4_latvian_ci"},
	{collation.UTF8mb4RomanianCi, 227, "utf8mb4_romanian_ci"},
	{collation.UTF8mb4SlovenianCi, 228, "utf8mb4_slovenian_ci"},
	{collation.UTF8mb4PolishCi, 229, "utf8mb4_polish_ci"},
	{collation.UTF8mb4EstonianCi, 230, "utf8mb4_estonian_ci"},
	{collation.UTF8mb4SpanishCi, 231, "utf8mb4_spanish_ci"},
	{collation.UTF8mb4SwedishCi, 232, "utf8mb4_swedish_ci"},
	{collation.UTF8mb4TurkishCi, 233, "utf8mb4_turkish_ci"},
	{collation.UTF8mb4CzechCi, 234, "utf8mb4_czech_ci"},
	{collation.UTF8mb4DanishCi, 235, "utf8mb4_danish_ci"},
	{collation.UTF8mb4LithuanianCi, 236, "utf8mb4_lithuanian_ci"},
	{collation.UTF8mb4SlovakCi, 237, "utf8mb4_slovak_ci"},
	{collation.UTF8mb4Spanish2Ci, 238, "utf8mb4_spanish2_ci"},
	{collation.UTF8mb4RomanCi, 239, "utf8mb4_roman_ci"},
	{collation.UTF8mb4PersianCi, 240, "utf8mb4_persian_ci"},
	{collation.UTF8mb4EsperantoCi, 241, "utf8mb4_esperanto_ci"},
	{collation.UTF8mb4HungarianCi, 242, "utf8mb4_hungarian_ci"},
	{collation.UTF8mb4SinhalaCi, 243, "utf8mb4_sinhala_ci"},
	{collation.UTF8mb4German2Ci, 244, "utf8mb4_german2_ci"},
	{collation.UTF8mb4CroatianCi, 245, "utf8mb4_croatian_ci"},
	{collation.UTF8mb4Unicode520Ci, 246, "utf8mb4_unicode_520_ci"},
	{collation.UTF8mb4VietnameseCi, 247, "utf8mb4_vietnamese_ci"},
	{collation.Gb18030ChineseCi, 248, "gb18030_chinese_ci"},
	{collation.Gb18030Bin, 249, "gb18030_bin"},
	{collation.Gb18030Unicode520Ci, 250, "gb18030_unicode_520_ci"},
	{collation.UTF8mb40900AiCi, 255, "utf8mb4_0900_ai_ci"},
	{collation.UTF8mb4DePb0900AiCi, 256, "utf8mb4_de_pb_0900_ai_ci"},
	{collation.UTF8mb4Is0900AiCi, 257, "utf8mb4_is_0900_ai_ci"},
	{collation.UTF8mb4Lv0900AiCi, 258, "utf8mb4_lv_0900_ai_ci"},
	{collation.UTF8mb4Ro0900AiCi, 259, "utf8mb4_ro_0900_ai_ci"},
	{collation.UTF8mb4Sl0900AiCi, 260, "utf8mb4_sl_0900_ai_ci"},
	{collation.UTF8mb4Pl0900AiCi, 261, "utf8mb4_pl_0900_ai_ci"},
	{collation.UTF8mb4Et0900AiCi, 262, "utf8mb4_et_0900_ai_ci"},
	{collation.UTF8mb4Es0900AiCi, 263, "utf8mb4_es_0900_ai_ci"},
	{collation.UTF8mb4Sv0900AiCi, 264, "utf8mb4_sv_0900_ai_ci"},
	{collation.UTF8mb4Tr0900AiCi, 265, "utf8mb4_tr_0900_ai_ci"},
	{collation.UTF8mb4Cs0900AiCi, 266, "utf8mb4_cs_0900_ai_ci"},
	{collation.UTF8mb4Da0900AiCi, 267, "utf8mb4_da_0900_ai_ci"},
	{collation.UTF8mb4Lt0900AiCi, 268, "utf8mb4_lt_0900_ai_ci"},
	{collation.UTF8mb4Sk0900AiCi, 269, "utf8mb4_sk_0900_ai_ci"},
	{collation.UTF8mb4EsTrad0900AiCi, 270, "utf8mb4_es_trad_0900_ai_ci"},
	{collation.UTF8mb4La0900AiCi, 271, "utf8mb4_la_0900_ai_ci"},
	{collation.UTF8mb4Eo0900AiCi, 273, "utf8mb4_eo_0900_ai_ci"},
	{collation.UTF8mb4Hu0900AiCi, 274, "utf8mb4_hu_0900_ai_ci"},
	{collation.UTF8mb4Hr0900AiCi, 275, "utf8mb4_hr_0900_ai_ci"},
	{collation.UTF8mb4Vi0900AiCi, 277, "utf8mb4_vi_0900_ai_ci"},
	{collation.UTF8mb40900AsCs, 278, "utf8mb4_0900_as_cs"},
	{collation.UTF8mb4DePb0900AsCs, 279, "utf8mb4_de_pb_0900_as_cs"},
	{collation.UTF8mb4Is0900AsCs, 280, "utf8mb4_is_0900_as_cs"},
	{collation.UTF8mb4Lv0900AsCs, 281, "utf8mb4_lv_0900_as_cs"},
	{collation.UTF8mb4Ro0900AsCs, 282, "utf8mb4_ro_0900_as_cs"},
	{collation.UTF8mb4Sl0900AsCs, 283, "utf8mb4_sl_0900_as_cs"},
	{collation.UTF8mb4Pl0900AsCs, 284, "utf8mb4_pl_0900_as_cs"},
	{collation.UTF8mb4Et0900AsCs, 285, "utf8mb4_et_0900_as_cs"},
	{collation.UTF8mb4Es0900AsCs, 286, "utf8mb4_es_0900_as_cs"},
	{collation.UTF8mb4Sv0900AsCs, 287, "utf8mb4_sv_0900_as_cs"},
	{collation.UTF8mb4Tr0900AsCs, 288, "utf8mb4_tr_0900_as_cs"},
	{collation.UTF8mb4Cs0900AsCs, 289, "utf8mb4_cs_0900_as_cs"},
	{collation.UTF8mb4Da0900AsCs, 290, "utf8mb4_da_0900_as_cs"},
	{collation.UTF8mb4Lt0900AsCs, 291, "utf8mb4_lt_0900_as_cs"},
	{collation.UTF8mb4Sk0900AsCs, 292, "utf8mb4_sk_0900_as_cs"},
	{collation.UTF8mb4EsTrad0900AsCs, 293, "utf8mb4_es_trad_0900_as_cs"},
	{collation.UTF8mb4La0900AsCs, 294, "utf8mb4_la_0900_as_cs"},
	{collation.UTF8mb4Eo0900AsCs, 296, "utf8mb4_eo_0900_as_cs"},
	{collation.UTF8mb4Hu0900AsCs, 297, "utf8mb4_hu_0900_as_cs"},
	{collation.UTF8mb4Hr0900AsCs, 298, "utf8mb4_hr_0900_as_cs"},
	{collation.UTF8mb4Vi0900AsCs, 300, "utf8mb4_vi_0900_as_cs"},
	{collation.UTF8mb4Ja0900AsCs, 303, "utf8mb4_ja_0900_as_cs"},
	{collation.UTF8mb4Ja0900AsCsKs, 304, "utf8mb4_ja_0900_as_cs_ks"},
	{collation.UTF8mb40900AsCi, 305, "utf8mb4_0900_as_ci"},
	{collation.UTF8mb4Ru0900AiCi, 306, "utf8mb4_ru_0900_ai_ci"},
	{collation.UTF8mb4Ru0900AsCs, 307, "utf8mb4_ru_0900_as_cs"},
}
