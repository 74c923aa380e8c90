// Generated by `driver DUMP`: the reference patterns and maps.
pub const BASE: &[(&str, &str)] = &[
    ("single_international_prefix", "[\\d]+(?:[~⁓∼～][\\d]+)?"),
    ("digits_pattern", "[\\p{Nd}]*"),
    ("capturing_digit_pattern", "([\\p{Nd}])"),
    ("capturing_ascii_digits_pattern", "(\\d+)"),
    ("valid_start_char_pattern", "[+＋\\p{Nd}]"),
    ("capture_up_to_second_number_start_pattern", "(.*)[\\\\/] *x"),
    ("unwanted_end_char_pattern", "[^\\p{N}\\p{L}#]"),
    ("separator_pattern", "[-x‐-―−ー－-／ \u{a0}\u{ad}\u{200b}\u{2060}\u{3000}()（）［］.\\[\\]/~⁓∼]+"),
    ("extn_pattern", "(?i)(?:;ext=([\\p{Nd}]{1,20})|[ \u{a0}\\t,]*(?:e?xt(?:ensi(?:o\u{301}?|ó))?n?|(?:ｅ)?ｘｔ(?:ｎ)?|доб|anexo)[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,20})#?|[ \u{a0}\\t,]*(?:[xｘ#＃~～]|int|ｉｎｔ)[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,9})#?|[- ]+([\\p{Nd}]{1,6})#|[ \u{a0}\t]*(?:,{2}|;)[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,15})#?|[ \u{a0}\t]*(?:,)+[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,9})#?)$"),
    ("valid_phone_number_pattern", "(?i)^(?:[+＋]*(?:[-x‐-―−ー－-／ \u{a0}\u{ad}\u{200b}\u{2060}\u{3000}()（）［］.\\[\\]/~⁓∼*]*\\p{Nd}){3,}[-x‐-―−ー－-／ \u{a0}\u{ad}\u{200b}\u{2060}\u{3000}()（）［］.\\[\\]/~⁓∼*\\p{Nd}a-z]*|\\p{Nd}{2})(?:;ext=([\\p{Nd}]{1,20})|[ \u{a0}\\t,]*(?:e?xt(?:ensi(?:o\u{301}?|ó))?n?|(?:ｅ)?ｘｔ(?:ｎ)?|доб|anexo)[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,20})#?|[ \u{a0}\\t,]*(?:[xｘ#＃~～]|int|ｉｎｔ)[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,9})#?|[- ]+([\\p{Nd}]{1,6})#|[ \u{a0}\t]*(?:,{2}|;)[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,15})#?|[ \u{a0}\t]*(?:,)+[:\\.．]?[ \u{a0}\\t,-]*([\\p{Nd}]{1,9})#?)?$"),
    ("valid_alpha_phone_pattern", "(?:.*?[A-Za-z]){3}.*"),
    ("first_group_capturing_pattern", "(\\$\\d)"),
    ("carrier_code_pattern", "\\$CC"),
    ("plus_chars_pattern", "[+＋]+"),
    ("rfc3966_global_number_digits_pattern", "^\\+(\\p{Nd}|[\\-\\.\\(\\)]?)*\\p{Nd}(\\p{Nd}|[\\-\\.\\(\\)]?)*$"),
    ("rfc3966_domainname_pattern", "^([A-Za-z\\p{Nd}]+((\\-)*[A-Za-z\\p{Nd}])*\\.)*[A-Za-z]+((\\-)*[A-Za-z\\p{Nd}])*\\.?$"),
    ("formatting_rule_has_first_group_only_regex", "\\(?\\$1\\)?"),
];
pub const MAPS: &[(&str, &[(char, char)])] = &[
    ("diallable_char_mappings", &[('#', '#'), ('*', '*'), ('+', '+'), ('0', '0'), ('1', '1'), ('2', '2'), ('3', '3'), ('4', '4'), ('5', '5'), ('6', '6'), ('7', '7'), ('8', '8'), ('9', '9')]),
    ("alpha_mappings", &[('A', '2'), ('B', '2'), ('C', '2'), ('D', '3'), ('E', '3'), ('F', '3'), ('G', '4'), ('H', '4'), ('I', '4'), ('J', '5'), ('K', '5'), ('L', '5'), ('M', '6'), ('N', '6'), ('O', '6'), ('P', '7'), ('Q', '7'), ('R', '7'), ('S', '7'), ('T', '8'), ('U', '8'), ('V', '8'), ('W', '9'), ('X', '9'), ('Y', '9'), ('Z', '9')]),
    ("alpha_phone_mappings", &[('0', '0'), ('1', '1'), ('2', '2'), ('3', '3'), ('4', '4'), ('5', '5'), ('6', '6'), ('7', '7'), ('8', '8'), ('9', '9'), ('A', '2'), ('B', '2'), ('C', '2'), ('D', '3'), ('E', '3'), ('F', '3'), ('G', '4'), ('H', '4'), ('I', '4'), ('J', '5'), ('K', '5'), ('L', '5'), ('M', '6'), ('N', '6'), ('O', '6'), ('P', '7'), ('Q', '7'), ('R', '7'), ('S', '7'), ('T', '8'), ('U', '8'), ('V', '8'), ('W', '9'), ('X', '9'), ('Y', '9'), ('Z', '9')]),
    ("all_plus_number_grouping_symbols", &[(' ', ' '), ('-', '-'), ('.', '.'), ('/', '/'), ('0', '0'), ('1', '1'), ('2', '2'), ('3', '3'), ('4', '4'), ('5', '5'), ('6', '6'), ('7', '7'), ('8', '8'), ('9', '9'), ('A', 'A'), ('B', 'B'), ('C', 'C'), ('D', 'D'), ('E', 'E'), ('F', 'F'), ('G', 'G'), ('H', 'H'), ('I', 'I'), ('J', 'J'), ('K', 'K'), ('L', 'L'), ('M', 'M'), ('N', 'N'), ('O', 'O'), ('P', 'P'), ('Q', 'Q'), ('R', 'R'), ('S', 'S'), ('T', 'T'), ('U', 'U'), ('V', 'V'), ('W', 'W'), ('X', 'X'), ('Y', 'Y'), ('Z', 'Z'), ('a', 'A'), ('b', 'B'), ('c', 'C'), ('d', 'D'), ('e', 'E'), ('f', 'F'), ('g', 'G'), ('h', 'H'), ('i', 'I'), ('j', 'J'), ('k', 'K'), ('l', 'L'), ('m', 'M'), ('n', 'N'), ('o', 'O'), ('p', 'P'), ('q', 'Q'), ('r', 'R'), ('s', 'S'), ('t', 'T'), ('u', 'U'), ('v', 'V'), ('w', 'W'), ('x', 'X'), ('y', 'Y'), ('z', 'Z'), ('‐', '-'), ('‑', '-'), ('‒', '-'), ('–', '-'), ('—', '-'), ('―', '-'), ('\u{2060}', ' '), ('−', '-'), ('\u{3000}', ' '), ('－', '-'), ('．', '.'), ('／', '/')]),
];
