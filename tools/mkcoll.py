#!/usr/bin/env python3
"""Writes harness/h/colltab.go: MySQL 8.0's collations by id, as published in
information_schema.COLLATIONS, with the constant xtorm has for each. The ids
and names are written out here, not read from the repository; only the Go
identifiers (which a harness must use to refer to them) follow its naming."""
base = """1 big5_chinese_ci|2 latin2_czech_cs|3 dec8_swedish_ci|4 cp850_general_ci|5 latin1_german1_ci|6 hp8_english_ci
7 koi8r_general_ci|8 latin1_swedish_ci|9 latin2_general_ci|10 swe7_swedish_ci|11 ascii_general_ci|12 ujis_japanese_ci
13 sjis_japanese_ci|14 cp1251_bulgarian_ci|15 latin1_danish_ci|16 hebrew_general_ci|18 tis620_thai_ci|19 euckr_korean_ci
20 latin7_estonian_cs|21 latin2_hungarian_ci|22 koi8u_general_ci|23 cp1251_ukrainian_ci|24 gb2312_chinese_ci
25 greek_general_ci|26 cp1250_general_ci|27 latin2_croatian_ci|28 gbk_chinese_ci|29 cp1257_lithuanian_ci
30 latin5_turkish_ci|31 latin1_german2_ci|32 armscii8_general_ci|33 utf8_general_ci|34 cp1250_czech_cs|35 ucs2_general_ci
36 cp866_general_ci|37 keybcs2_general_ci|38 macce_general_ci|39 macroman_general_ci|40 cp852_general_ci|41 latin7_general_ci
42 latin7_general_cs|43 macce_bin|44 cp1250_croatian_ci|45 utf8mb4_general_ci|46 utf8mb4_bin|47 latin1_bin
48 latin1_general_ci|49 latin1_general_cs|50 cp1251_bin|51 cp1251_general_ci|52 cp1251_general_cs|53 macroman_bin
54 utf16_general_ci|55 utf16_bin|56 utf16le_general_ci|57 cp1256_general_ci|58 cp1257_bin|59 cp1257_general_ci
60 utf32_general_ci|61 utf32_bin|62 utf16le_bin|63 binary|64 armscii8_bin|65 ascii_bin|66 cp1250_bin|67 cp1256_bin
68 cp866_bin|69 dec8_bin|70 greek_bin|71 hebrew_bin|72 hp8_bin|73 keybcs2_bin|74 koi8r_bin|75 koi8u_bin
76 utf8_tolower_ci|77 latin2_bin|78 latin5_bin|79 latin7_bin|80 cp850_bin|81 cp852_bin|82 swe7_bin|83 utf8_bin
84 big5_bin|85 euckr_bin|86 gb2312_bin|87 gbk_bin|88 sjis_bin|89 tis620_bin|90 ucs2_bin|91 ujis_bin
92 geostd8_general_ci|93 geostd8_bin|94 latin1_spanish_ci|95 cp932_japanese_ci|96 cp932_bin|97 eucjpms_japanese_ci
98 eucjpms_bin|99 cp1250_polish_ci|159 ucs2_general_mysql500_ci|223 utf8_general_mysql500_ci
248 gb18030_chinese_ci|249 gb18030_bin|250 gb18030_unicode_520_ci
303 utf8mb4_ja_0900_as_cs|304 utf8mb4_ja_0900_as_cs_ks|305 utf8mb4_0900_as_ci|306 utf8mb4_ru_0900_ai_ci|307 utf8mb4_ru_0900_as_cs"""
tab = {}
for e in base.replace("\n", "|").split("|"):
    n, name = e.split()
    tab[int(n)] = name
langs = "unicode icelandic latvian romanian slovenian polish estonian spanish swedish turkish czech danish lithuanian slovak spanish2 roman persian esperanto hungarian sinhala german2 croatian unicode_520 vietnamese".split()
for cs, first in (("utf16", 101), ("ucs2", 128), ("utf32", 160), ("utf8", 192), ("utf8mb4", 224)):
    for i, l in enumerate(langs):
        tab[first + i] = "%s_%s_ci" % (cs, l)
l9 = ["", "de_pb_", "is_", "lv_", "ro_", "sl_", "pl_", "et_", "es_", "sv_", "tr_", "cs_", "da_", "lt_", "sk_", "es_trad_", "la_", None, "eo_", "hu_", "hr_", None, "vi_"]
for first, suf in ((255, "ai_ci"), (278, "as_cs")):
    for i, l in enumerate(l9):
        if l is not None:
            tab[first + i] = "utf8mb4_%s0900_%s" % (l, suf)

def ident(name):
    out = ""
    for i, w in enumerate(name.split("_")):
        if i == 0 and w.startswith("utf"): w = "UTF" + w[3:]
        elif i == 0 and w in ("ucs2", "ascii"): w = w.upper()
        elif w == "mysql500": w = "MySQL500"
        else: w = w[0].upper() + w[1:]
        out += w
    return out

with open("/verif/harness/h/colltab.go", "w") as f:
    f.write("package h\n\n// Written by tools/mkcoll.py.\n\nimport \"github.com/renthraysk/xtorm/collation\"\n\nvar collTab = []struct {\n\tc    collation.Collation\n\tid   uint64\n\tname string\n}{\n")
    for n in sorted(tab):
        f.write("\t{collation.%s, %d, %s},\n" % (ident(tab[n]), n, '"' + tab[n] + '"'))
    f.write("}\n")
print(len(tab))
