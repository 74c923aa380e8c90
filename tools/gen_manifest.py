#!/usr/bin/env python3
"""Writes checks/checks.json and MANIFEST.json from the table below."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
I = "PhoneNumberUtilInternal::"
def T(s): return [I + x[1:] if x.startswith(".") else x for x in s.split()]
RX = T("RegexCache::get_regex Regex::full_match Regex::find_start Regex::matches_start Regex::captures_start RegexBasedMatcher::match_number RegexBasedMatcher::match_national_number is_match")
BUILD = T(".new_for_metadata .new PhoneNumberUtil::new RegexBasedMatcher::new")
LOOK = T(".get_metadata_for_region .get_metadata_for_region_or_calling_code .get_region_code_for_country_code .get_region_codes_for_country_calling_code .has_valid_country_calling_code .get_country_code_for_region")
TYPE = T(".is_number_matching_desc .get_number_type_helper .get_number_type")
REGION = T(".get_region_code_for_number .get_region_code_for_number_from_region_list")
LEN = T("get_number_desc_by_type desc_has_possible_number_data test_number_length test_number_length_with_unknown_type .is_possible_number_for_type_with_reason .is_possible_number_with_reason .is_possible_number_for_type .is_possible_number")
NSN = T(".get_national_significant_number")
C = {}
def prop(pid, targets, lemmas="", closure=(), note="", **kw):
    C[pid] = dict(targets=list(dict.fromkeys(targets)), lemmas=lemmas.split(), closure=[x for x in dict.fromkeys(closure) if x not in targets], note=note, **kw)
WF = "wf(util) of every constructed util is proved (PhoneNumberUtil::new, new_for_metadata; checks P13, P14) from coll_ok: the bundled metadata decodes, its patterns compile, its lengths are sorted, each region is listed once, ...; coll_ok itself is checked on every entry of the bundled metadata by 'driver META' on every run, not proved"
REGEX = "the regex engine: find/captures/replace are functions of pattern and text with the stated range facts; '^(?:p)$' finds iff p matches the whole text"
STD = "std strings, Vec, HashMap/HashSet, DashMap and protobuf-generated accessors behave as their trusted contracts in contracts/10..35 and the extractor's proto templates say"
MEM = "memory is not exhausted; number_of_leading_zeros is small enough to allocate"
ASSUME = [WF, REGEX, STD, MEM]
prop("P09", LEN + NSN + T(".get_region_code_for_country_code .get_metadata_for_region_or_calling_code .has_valid_country_calling_code"), closure=LOOK)
prop("P10", TYPE + T("is_match RegexBasedMatcher::match_national_number"), closure=RX + REGION + LOOK + NSN)
prop("P11", T(".is_valid_number .is_valid_number_for_region") + TYPE + REGION + T(".get_country_code_for_region .get_metadata_for_region_or_calling_code"), "60_p11", closure=RX + LOOK + NSN + LEN)
prop("P12", RX + T(".is_number_matching_desc"))
prop("P13", LOOK + BUILD + T(".is_nanpa_country .get_supported_regions .get_supported_global_network_calling_codes RegionCode::get_unknown RegionCode::zz"), "60_p13")
prop("P14", REGION + BUILD + T(".get_metadata_for_region .get_region_codes_for_country_calling_code Regex::matches_start RegionCode::get_unknown RegionCode::zz") + TYPE, "60_p14", closure=RX + NSN + LOOK)
prop("P15", T(".is_number_match copy_core_fields_only is_national_number_suffix_of_the_other"), "60_p15")
prop("P16", T(".truncate_too_long_number"), "60_p16", closure=LEN + T(".is_valid_number .is_valid_number_for_region") + TYPE + REGION + RX + LOOK + NSN)
prop("P24", T(".can_be_internationally_dialled .is_number_matching_desc .get_region_code_for_number .get_metadata_for_region"), closure=RX + REGION + LOOK + NSN + TYPE)
FMT = T("prefix_number_with_country_calling_code .format .format_nsn .format_nsn_with_carrier .choose_formatting_pattern_for_number .format_nsn_using_pattern_with_carrier .get_formatted_extension")
FMTALL = FMT + T(".format_nsn_using_pattern .format_by_pattern")
prop("P05", T(".format prefix_number_with_country_calling_code") + NSN, "60_p05", closure=FMT)
prop("P06", FMT + NSN + T(".format_by_pattern .format_nsn_using_pattern"), "60_p06", closure=LOOK + RX)
prop("P07", T(".format .get_formatted_extension .format_by_pattern .format_national_number_with_carrier_code"), "60_p07", closure=FMTALL)
prop("P08", FMTALL + T("Regex::full_match Regex::matches_start Regex::find_start"), "60_p08", closure=LOOK + RX + NSN)
prop("P23", T(".format_national_number_with_carrier_code .format_national_number_with_preferred_carrier_code .format_nsn_with_carrier .format_nsn_using_pattern_with_carrier .choose_formatting_pattern_for_number"), "60_p23", closure=FMT + LOOK + RX + NSN)
EXT = T(".maybe_strip_extension .is_viable_phone_number")
NORM = T("normalize_helper .normalize .normalize_digits_only .normalize_diallable_chars_only .convert_alpha_characters_in_number")
CTXT = T(".is_phone_context_valid .extract_phone_context .trim_unwanted_end_chars .extract_possible_number .build_national_number_for_parsing")
CODE = T(".parse_prefix_as_idd PhoneNumberWithCountryCodeSource::new .maybe_strip_international_prefix_and_normalize .extract_country_code .maybe_extract_country_code")
NPS = T(".maybe_strip_national_prefix_and_carrier_code")
LZ = T(".get_italian_leading_zeros_for_phone_number")
TOP = T(".check_region_for_parsing .parse_helper .parse .parse_and_keep_raw_input")
CTOR = T("PhoneNumberRegExpsAndMappings::initialize_regexp_mappings PhoneNumberRegExpsAndMappings::new RegexCache::with_capacity create_extn_pattern extn_digits")
PARSE = EXT + NORM[:3] + CTXT + CODE + NPS + LZ + TOP
TESTLEN = T("test_number_length test_number_length_with_unknown_type get_number_desc_by_type desc_has_possible_number_data")
prop("P01", PARSE + T("RegexCache::get_regex"), closure=RX + LOOK + TESTLEN + CTOR)
prop("P02", TOP + LZ + CODE + EXT, "60_p02", closure=PARSE + CTOR + RX + LOOK + TESTLEN)
prop("P03", T(".parse_helper .get_national_significant_number .get_italian_leading_zeros_for_phone_number"), "60_p03", closure=PARSE + RX + LOOK + TESTLEN)
prop("P04", TOP + T(".maybe_extract_country_code"), "60_p04", closure=PARSE + RX + LOOK + TESTLEN)
prop("P17", NORM + CTOR, "60_p17", closure=RX)
prop("P18", CTXT, "60_p18", closure=RX)
prop("P19", T(".format_number_for_mobile_dialing .normalize_diallable_chars_only normalize_helper") + CTOR, "60_p19", closure=FMTALL + LOOK + RX + NSN + TYPE + REGION + LEN + T(".can_be_internationally_dialled .format_national_number_with_carrier_code .format_national_number_with_preferred_carrier_code"))
prop("P20", T(".format_out_of_country_calling_number"), "60_p20", closure=FMTALL + LOOK + RX + NSN)
prop("P21", T(".format_out_of_country_keeping_alpha_chars normalize_helper .maybe_strip_extension") + CTOR, "60_p21", closure=FMTALL + LOOK + RX + NSN + EXT + T(".format_out_of_country_calling_number"))
prop("P22", T(".format_in_original_format .has_formatting_pattern_for_number .normalize_diallable_chars_only normalize_helper .raw_input_contains_national_prefix .get_ndd_prefix_for_region strip_cow_prefix .normalize_digits_only"), "60_p22", closure=FMTALL + LOOK + RX + NSN + T(".format_out_of_country_calling_number") + PARSE + LEN + TYPE + REGION)
prop("P25", T(".is_number_geographical_by_country_code_and_type .is_number_geographical .get_length_of_geographical_area_code .get_length_of_national_destination_code .get_country_mobile_token") + CTOR, "60_p25", closure=FMTALL + LOOK + RX + NSN + TYPE + REGION)
prop("P27", EXT, "60_p27", closure=RX)
prop("P28", CODE + T(".normalize normalize_helper .normalize_digits_only"), "60_p28", closure=RX + LOOK + TESTLEN + NPS)
prop("P29", NPS, "60_p29", closure=RX)
EX = T(".get_example_number_for_type_and_region_code .get_example_number .get_example_number_for_type .get_example_number_for_non_geo_entity .get_invalid_example_number")
prop("P26", EX + T("GetExampleNumberErrorInternal::into_public PhoneNumberUtil::get_example_number PhoneNumberUtil::get_example_number_for_type PhoneNumberUtil::get_invalid_example_number .is_valid_number .parse get_number_desc_by_type .get_supported_regions .get_supported_global_network_calling_codes"), "60_p26", closure=PARSE + LEN + TYPE + REGION + LOOK + RX)
PLAIN = "e164_plain: on a plus sign followed by 3 to 20 digits the library's own extension, viable-number and trimming patterns match as the lemma states; decided exactly on the patterns' automata by `driver META` on every run"
prop("P31", T(".format prefix_number_with_country_calling_code") + NSN + TOP + CODE + CTXT + EXT + LZ, "60_p31", closure=PARSE + CTOR + RX + LOOK + TESTLEN, assumptions=ASSUME + [PLAIN])
prop("P32", T(".is_valid_number .is_valid_number_for_region") + TYPE + REGION + LEN + NSN + BUILD, "60_p32", closure=RX + LOOK)
# public wrappers, verified together with the property whose operation they expose
W = {"P01": "ParseErrorInternal::into_public PhoneNumberUtil::parse PhoneNumberUtil::parse_and_keep_raw_input .is_possible_number_for_string",
 "P02": "ParseErrorInternal::into_public PhoneNumberUtil::parse PhoneNumberUtil::parse_and_keep_raw_input", "P03": "PhoneNumberUtil::parse PhoneNumberUtil::format PhoneNumberUtil::get_national_significant_number", "P04": "ParseErrorInternal::into_public PhoneNumberUtil::parse PhoneNumberUtil::parse_and_keep_raw_input",
 "P05": "PhoneNumberUtil::format", "P06": "PhoneNumberUtil::format", "P07": "PhoneNumberUtil::format", "P08": "PhoneNumberUtil::format",
 "P09": "PhoneNumberUtil::is_possible_number PhoneNumberUtil::is_possible_number_with_reason", "P10": "PhoneNumberUtil::get_number_type",
 "P11": "PhoneNumberUtil::is_valid_number PhoneNumberUtil::is_valid_number_for_region", "P13": "PhoneNumberUtil::get_country_code_for_region PhoneNumberUtil::get_region_code_for_country_code PhoneNumberUtil::get_region_codes_for_country_code PhoneNumberUtil::get_supported_regions PhoneNumberUtil::is_nanpa_country",
 "P14": "PhoneNumberUtil::get_region_code_for_number", "P15": "PhoneNumberUtil::is_number_match .is_number_match_with_one_string .is_number_match_with_two_strings", "P16": "PhoneNumberUtil::truncate_too_long_number",
 "P17": "PhoneNumberUtil::convert_alpha_characters_in_number .is_alpha_number PhoneNumberUtil::is_alpha_number", "P19": "PhoneNumberUtil::format_number_for_mobile_dialing", "P20": "PhoneNumberUtil::format_out_of_country_calling_number",
 "P21": "PhoneNumberUtil::format_out_of_country_keeping_alpha_chars", "P22": "PhoneNumberUtil::format_in_original_format", "P23": "PhoneNumberUtil::format_national_number_with_carrier_code", "P24": "PhoneNumberUtil::can_be_internationally_dialled",
 "P31": "ParseErrorInternal::into_public PhoneNumberUtil::format PhoneNumberUtil::parse PhoneNumberUtil::parse_and_keep_raw_input PhoneNumberUtil::get_national_significant_number",
 "P32": "PhoneNumberUtil::is_valid_number PhoneNumberUtil::is_valid_number_for_region PhoneNumberUtil::is_possible_number PhoneNumberUtil::is_possible_number_with_reason",
 "P25": "PhoneNumberUtil::get_length_of_geographical_area_code PhoneNumberUtil::get_length_of_national_destination_code PhoneNumberUtil::is_number_geographical", "P27": ".is_alpha_number"}
for p, w in W.items(): C[p]["targets"] = list(dict.fromkeys(C[p]["targets"] + T(w))); C[p]["closure"] = [x for x in C[p]["closure"] if x not in C[p]["targets"]]
NOT30 = set(PARSE + CTOR + EX + T("ParseErrorInternal::into_public PhoneNumberUtil::parse PhoneNumberUtil::parse_and_keep_raw_input .is_possible_number_for_string .is_number_match_with_one_string .is_number_match_with_two_strings GetExampleNumberErrorInternal::into_public")) - set(EXT + NORM[:3])
prop("P30", [x for pid in sorted(C) for x in C[pid]["targets"] + C[pid]["closure"] if x not in NOT30 and "example" not in x], note="Every obligation of every function a read operation can reach is discharged: no panic site (index, slice, arithmetic overflow, unwrap) is reachable and every loop and recursion has a decreasing measure, for every number object and text.")
for c in C.values(): c.setdefault("assumptions", ASSUME)
(V / "checks/checks.json").write_text(json.dumps(C, indent=1) + "\n")
titles = {json.loads(l)["id"]: json.loads(l) for l in open(V / "properties.jsonl")}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hook if "guarded hook" in l]
M = {"version": 1, "setup_cmd": "bash checks/setup.sh",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' VERIF_HOOKS_RS=/verif/driver/hooks.rs cargo build (in /verif/driver)", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for pid in sorted(titles):
    if pid in C:
        M["checks"].append({"property": pid, "quick_cmd": "python3 checks/check.py " + pid, "thorough_cmd": "python3 checks/check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid, "technique": "contract-based deductive verification (Verus/Z3 on functions extracted mechanically from /repo on every run), failed obligations replayed by a differential driver",
            "level": "proof",
            "level_note": (C[pid]["note"] or "Every obligation of the listed functions' contracts and of the property's lemmas is discharged for all inputs.") + " Assumes the trusted contracts of std, regex and protobuf operations and well-formed metadata tables (see evidence trusted_base and assumptions). If changed code leaves the verifier's subset the proof is reported undecided and only the bounded driver run decides."})
    else:
        M["not_applicable"].append({"property": pid, "reason": "contracts not yet written (work in progress)"})
(V / "MANIFEST.json").write_text(json.dumps(M, indent=1) + "\n")
