#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (committed; regenerate after editing the table below)."""
import json, os
I = "src/phonenumberutil/phonenumberutil_internal.rs"
H = "src/phonenumberutil/helper_functions.rs"
X = "src/regex_util.rs"; M = "src/regex_based_matcher.rs"; C = "src/regexp_cache.rs"
R = "src/phonenumberutil/phone_number_regexps_and_mappings.rs"
U = "src/phonenumberutil/phonenumberutil.rs"; K="src/phonenumberutil/helper_constants.rs"
S = "src/string_util.rs"
P = []
def p(id, title, statement, over, why, mech, files=None, observe=None):
    fs = files or sorted({w.split(":")[0] for _, w in mech})
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=["inputs"] , text=over), why_tests_cant=why,
        anchors=dict(files=fs, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public API of PhoneNumberUtil"], hook_needed=None)))

p("P01", "Parsing is total",
  "Parsing any text with any default region returns either a phone number or a parse error. It never panics (no out-of-range or mid-character slicing, no arithmetic overflow, no failed unwrap) and always terminates, whatever the text contains and in whatever order phone-context, prefix, sub-address and extension markers appear.",
  "every Unicode string as number text, every string as default region",
  "The tests feed about two hundred fixed strings, almost all ASCII and well formed; the panic of the base revision on a 'tel:' after ';phone-context=' was reachable by any caller and no test hit it.",
  [("parse pipeline", I+":parse_helper"),("RFC3966 assembly", I+":build_national_number_for_parsing"),("phone-context extraction", I+":extract_phone_context"),("candidate extraction", I+":extract_possible_number"),("country code extraction", I+":extract_country_code"),("IDD stripping", I+":parse_prefix_as_idd")])
p("P02", "A parsed number is well formed",
  "Whenever parsing succeeds, the national significant number of the result has between 2 and 17 digits and its country calling code is one the library supports. Shorter or longer national numbers, and numbers whose country cannot be determined, are reported as errors and never returned as numbers.",
  "every input text and default region for which parsing succeeds",
  "Tests compare a few parsed values; the length limits interact with prefix stripping, leading zeros and the default region over an unbounded input space.",
  [("length limits", I+":parse_helper"),("region gate", I+":check_region_for_parsing"),("country code selection", I+":maybe_extract_country_code")])
p("P03", "Leading zeros survive parsing and formatting",
  "The national significant number of a number is its recorded count of leading zeros followed by the decimal digits of its national number, and for a number produced by parsing it is digit for digit the national number that was read, including numbers that start with, or consist only of, zeros. Splitting a digit string into leading zeros and value and joining it again is lossless.",
  "every national number of 2 to 17 digits, every number object",
  "Tests cover a handful of Italian-style numbers; losslessness is an encode/decode identity over all digit strings.",
  [("encoding", I+":get_italian_leading_zeros_for_phone_number"),("encoding in parse", I+":parse_helper"),("decoding", I+":get_national_significant_number")])
p("P04", "Keeping raw input changes nothing else",
  "Parsing a text with and without keeping the raw input succeeds on exactly the same texts with the same error otherwise, and yields the same country code, national number, leading zeros and extension. The plain variant records neither raw input, country-code source nor carrier code; the keeping variant records exactly the text given.",
  "every input text and default region, both parse variants",
  "A relation between two runs over all inputs; tests compare the variants on a few numbers only.",
  [("raw input handling", I+":parse_helper"),("source handling", I+":maybe_extract_country_code")])
p("P05", "E.164 output is '+', country code, national number",
  "Formatting a number as E.164 yields exactly a plus sign, the decimal country calling code and the national significant number, with no separators and no extension, even if the country code is unknown. The only exception is a number with national number zero that carries raw input: that is returned verbatim in every format.",
  "every number object, including malformed ones",
  "Tests format a few dozen valid numbers; the shape must hold for every field combination.",
  [("format", I+":format"),("prefixing", H+":prefix_number_with_country_calling_code"),("national number", I+":get_national_significant_number")])
p("P06", "Standard formats share one layout",
  "For a supported country code, the international form is '+code national-part extension' and the RFC3966 form is 'tel:+code-national-part extension', while the national form carries no country code; the national part is the national significant number laid out by the formatting rules for that plan. A number whose country code is unknown is rendered as the bare national significant number in these formats.",
  "every number object, every format",
  "Layout has to hold for all plans, formats and numbers; tests sample some regions.",
  [("format", I+":format"),("national part", I+":format_nsn_with_carrier"),("prefixing", H+":prefix_number_with_country_calling_code")])
p("P07", "Extensions are rendered once with the right marker",
  "A non-empty extension is appended unchanged at the end of the national, international and RFC3966 forms, introduced by ';ext=' in RFC3966, else by the plan's own marker if it declares one, else by ' ext. '. A missing or empty extension adds nothing.",
  "every number object, extension text and plan",
  "The marker choice depends on plan data and format; tests check two plans.",
  [("extension rendering", I+":get_formatted_extension"),("format", I+":format")])
p("P08", "The first applicable formatting rule is used",
  "The national part is laid out by the first rule of the plan (its international rules if it has any and the format is not national) whose last leading-digits condition matches the start of the number and whose pattern matches the whole number; with no such rule the digits are output unchanged. National-prefix and carrier decorations are applied only in the national form, and in RFC3966 form leading punctuation is dropped and every other separator run becomes a single hyphen.",
  "every rule list and every national number",
  "Rule order, absent leading-digits conditions and multi-entry conditions give a combinatorial space that tests sample through test metadata.",
  [("rule choice", I+":choose_formatting_pattern_for_number"),("rule application", I+":format_nsn_using_pattern_with_carrier"),("rule list choice", I+":format_nsn_with_carrier")])
p("P09", "Length classification follows the declared lengths exactly",
  "A length is possible if the plan declares it for the requested type, local-only if it is declared as such, too short below all declared lengths, too long above all of them and otherwise invalid; types without own lengths inherit the general ones, a type declared non-existent is always invalid, and the combined fixed-line-or-mobile type uses the union of both. An unsupported country code is reported as an invalid country code, and a number is possible exactly if its classification is not an error.",
  "every plan, every type, every number length",
  "The merge of fixed-line and mobile lengths, inheritance and the -1 marker give many combinations; tests hold for the listed ones only.",
  [("classification", H+":test_number_length"),("possibility", I+":is_possible_number_for_type_with_reason"),("availability of a type", H+":desc_has_possible_number_data"),("type lookup", H+":get_number_desc_by_type")])
p("P10", "Number type follows one fixed priority over matching classes",
  "A number that does not match its plan's general description has unknown type; otherwise its type is the first matching class in the order premium, toll-free, shared-cost, VoIP, personal, pager, UAN, voicemail, then fixed-line (fixed-line-or-mobile if the plan merges both or mobile matches too), then mobile, else unknown. A class matches exactly if the length is among its declared lengths, when it declares any, and its pattern matches the whole number.",
  "every plan and every national number",
  "Numbers matching several classes at once decide the priority; tests contain few such numbers.",
  [("priority", I+":get_number_type_helper"),("class match", I+":is_number_matching_desc"),("type of a number", I+":get_number_type")])
p("P11", "Validity is having a known type in the right plan",
  "A number is valid for a region exactly if the region's plan has the number's country code (non-geographic plans are looked up by code) and the number's type in that plan is known. A number is valid exactly if it is valid for the region determined for it, which is also exactly when its type is known; a valid number is never classified as having an unknown country code.",
  "every number object, every region string",
  "Three independently coded predicates must agree for all numbers; tests check each on samples.",
  [("validity", I+":is_valid_number"),("validity in a region", I+":is_valid_number_for_region"),("type", I+":get_number_type")])
p("P12", "Patterns must match the whole number",
  "A national number matches a numbering-plan pattern exactly if the pattern matches the entire number, independently of the order in which the pattern lists its alternatives; a match of a mere prefix or substring never counts and an empty pattern matches nothing. Compiled patterns are cached, and whatever was asked before (by any thread), a lookup yields the compilation of exactly the requested pattern.",
  "every pattern and number, every sequence of earlier lookups",
  "Patterns with an alternative that is a prefix of another one expose the difference; the base revision got it wrong for 16 plans and the tests passed.",
  [("whole match", M+":match_number"),("pattern match", M+":match_national_number"),("cache", C+":get_regex"),("match helpers", X+":full_match")])
p("P13", "Region and country-code lookups agree",
  "A country code is supported exactly if it has a region list; its region is the first of that list, and the unknown region otherwise. Every supported region is listed under exactly its own country code with the plan marked as main first, the code of a region equals the code of its plan, and the regions sharing code 1 are exactly those reported as North American.",
  "every integer as country code, every string as region",
  "The index is built from 250 plans in data order; tests look up about ten.",
  [("index construction", I+":new_for_metadata"),("region of a code", I+":get_region_code_for_country_code"),("regions of a code", I+":get_region_codes_for_country_calling_code"),("code of a region", I+":get_country_code_for_region"),("code supported", I+":has_valid_country_calling_code")])
p("P14", "The region of a number is the first one that claims it",
  "For a code used by one region that region is returned whatever the number; for a shared code it is the first listed region whose leading digits match the start of the national number or in whose plan the number has a known type; otherwise the unknown region is returned.",
  "every number object",
  "Order and fall-through between several regions matter; tests check a few Caribbean numbers.",
  [("region of a number", I+":get_region_code_for_number"),("search", I+":get_region_code_for_number_from_region_list")])
p("P15", "Number matching is exact, symmetric and reflexive",
  "Two numbers with country codes match exactly if country code, national number, leading zeros and extension agree, and match as short numbers if the codes agree and one national number is a decimal suffix of the other; if a code is missing the comparison ignores codes and reports at most a national match; differing non-empty extensions never match. The answer is the same in both directions, every number with a country code matches itself exactly, and raw input, code source and carrier code are ignored.",
  "every pair of number objects",
  "A relation over all pairs with nine fields each; tests list about twenty pairs.",
  [("matching", I+":is_number_match"),("core fields", H+":copy_core_fields_only"),("suffix", H+":is_national_number_suffix_of_the_other")])
p("P16", "Truncation finds the longest valid prefix or changes nothing",
  "Truncating a number reports success exactly if dropping zero or more final digits of its national number gives a valid number before a too-short one or zero is reached, and then the number is the one with the fewest digits dropped and all other fields unchanged. On failure the number is left exactly as it was.",
  "every number object",
  "Frame and minimality quantify over all numbers; tests check six.",
  [("truncation", I+":truncate_too_long_number")])
p("P17", "Character normalization is a fixed per-character map",
  "Converting letters in a number maps each ASCII letter, of either case, to its telephone keypad digit and leaves every other character in place; keeping only diallable characters retains exactly ASCII digits, plus, star and hash, in order. Digits of any script count as their decimal value when digits are read from a number.",
  "every Unicode string",
  "Per-character behaviour over 1.1 million characters and all strings; tests use a few.",
  [("mapping", H+":normalize_helper"),("alpha conversion", I+":convert_alpha_characters_in_number"),("diallable", I+":normalize_diallable_chars_only"),("choice", I+":normalize"),("tables", R+":initialize_regexp_mappings")])
p("P18", "RFC3966 text is taken apart by its parameters",
  "If a phone-context is present it must be a global number or a domain name, otherwise parsing fails; a global-number context is put in front of the part between 'tel:' (or the beginning) and the context, a domain context is ignored. An ISDN sub-address and everything after it is discarded.",
  "every text containing RFC3966 parameters in any order",
  "Parameters can repeat, be empty, or come in any order; tests list about fifteen texts.",
  [("assembly", I+":build_national_number_for_parsing"),("context value", I+":extract_phone_context"),("context syntax", I+":is_phone_context_valid")])
p("P19", "Mobile dialing output follows one decision table",
  "For an unsupported country code the raw input (or nothing) is returned. Within the number's own region it is the national form, except: Brazilian fixed and mobile numbers use their recorded carrier code or yield nothing, North American numbers and non-geographic or Mexican, Chilean and Uzbek fixed or mobile numbers use the international form when diallable internationally (North American ones also only if not too short); from elsewhere it is the international form (E.164 without formatting) if the number is valid and diallable internationally, else nothing. Extensions never appear, and without formatting only diallable characters remain.",
  "every number object, calling region and formatting choice",
  "Nested conditions over region, type and validity; tests cover selected rows of the table.",
  [("decision table", I+":format_number_for_mobile_dialing")])
p("P20", "Out-of-country output follows one decision table",
  "From an unknown region a number is given in international form; an unsupported country code yields the bare national number; between North American regions it is '1 ' plus the national form, within the same country code the national form. Otherwise it is the calling region's preferred, or else its single, international prefix, then country code, then the internationally formatted national part and extension, and with no usable prefix the plain international layout.",
  "every number object and calling region",
  "Depends on two plans at once; tests check some pairs of regions.",
  [("decision table", I+":format_out_of_country_calling_number")])
p("P21", "Out-of-country output keeps letters",
  "For a number with raw input, the out-of-country form that keeps letters uses the letters, digits and grouping symbols of the raw input from the first three national digits on, prefixed like other out-of-country output: '1 ' between North American regions, the national rules within one code, the single or preferred international prefix and code otherwise, and '+code ' when the calling region is unknown or offers no such prefix. Without raw input it equals the ordinary out-of-country form.",
  "every number object and calling region",
  "Depends on raw input, two plans and prefix data; tests cover few regions and missed the regions with several prefixes.",
  [("decision table", I+":format_out_of_country_keeping_alpha_chars")])
p("P22", "Original-format output never alters the dialled digits",
  "Formatting in its original format a number that has raw input and records where its country code came from returns, whenever the output is not empty, either a text with exactly the diallable characters of its raw input or the raw input itself; with raw input and no applicable formatting rule it is the raw input. A number without a recorded source is otherwise given in national form; one whose country code came with a plus, a dialing prefix, or bare digits is rendered in the matching international style.",
  "every number object with raw input",
  "A guarantee over all numbers and texts; tests check about twenty.",
  [("original format", I+":format_in_original_format"),("national prefix detection", I+":raw_input_contains_national_prefix")])
p("P23", "Carrier codes appear only where a rule provides for them",
  "Formatting with a carrier code inserts that code once at the place given by the domestic-carrier rule of the chosen formatting rule; if the rule has none, or the carrier code is empty, the output is the ordinary national form. A number of unknown country code is output as its bare national number.",
  "every number object and carrier code",
  "Tests check one Argentine rule; the guarantee is over all rules and codes.",
  [("carrier formatting", I+":format_national_number_with_carrier_code"),("rule application", I+":format_nsn_using_pattern_with_carrier"),("preferred carrier", I+":format_national_number_with_preferred_carrier_code")])
p("P24", "Numbers are internationally diallable unless excluded by plan",
  "A number can be dialled internationally exactly unless the plan of its region lists it as not internationally diallable; numbers without a regional plan, including all non-geographic ones, always can.",
  "every number object",
  "Tests check two numbers.",
  [("decision", I+":can_be_internationally_dialled")])
p("P25", "Geographic classification and area-code length are consistent",
  "A number is geographic exactly if its type is fixed-line or fixed-line-or-mobile, or mobile in one of the countries with geographic mobile numbers. The area-code length is zero for numbers that are not geographic, have no regional plan, belong to a plan without national prefix (unless they have leading zeros or the country is excepted) or are mobile in a country without mobile area codes, and otherwise equals the national-destination-code length: the second digit group of the international form, or the third plus the mobile token where one is used, ignoring the extension and zero when there are fewer than three groups.",
  "every number object",
  "Tests check a dozen numbers of the decision table.",
  [("geographic", I+":is_number_geographical_by_country_code_and_type"),("area code", I+":get_length_of_geographical_area_code"),("NDC", I+":get_length_of_national_destination_code")])
p("P26", "Invalid example numbers are never valid",
  "Whenever an invalid example number is produced for a region it is a number that parses and is not valid; an unknown region yields an error. Example numbers are the parsed example of the plan for the requested type, taken from a plan that has one.",
  "every region string and number type",
  "Must hold for every plan; tests sample.",
  [("invalid example", I+":get_invalid_example_number"),("example", I+":get_example_number_for_type_and_region_code")])
p("P27", "Extensions are split off only from viable numbers",
  "An extension is split off exactly when the text ends in a recognised extension form with at least one digit and what precedes it is itself a viable number; then number and extension are the corresponding parts of the text, otherwise the text is unchanged and there is no extension.",
  "every text",
  "Extension syntax overlaps with number syntax; tests list sample texts.",
  [("splitting", I+":maybe_strip_extension"),("viability", I+":is_viable_phone_number")])
p("P28", "Country codes are split off without losing digits",
  "When an international prefix or plus sign is recognised, the shortest leading digit group that is a supported country code becomes the country code and the remaining digits, unchanged, the national number; a leading zero is never part of a country code, and a dialing prefix is never removed if the next digit is zero. Without a prefix, the default region's own code is split off only if the remainder fits the plan better: the whole did not match while the remainder does, or the whole is too long.",
  "every digit string and default region",
  "All digit strings times all regions; tests check some.",
  [("code extraction", I+":extract_country_code"),("code decision", I+":maybe_extract_country_code"),("prefix stripping", I+":maybe_strip_international_prefix_and_normalize"),("IDD", I+":parse_prefix_as_idd")])
p("P29", "Stripping a national prefix never breaks a viable number",
  "Removing a national prefix or carrier code from a number that matches its plan's general pattern never yields one that does not; the number is then left untouched. The result is the input, the input without the recognised prefix, or the plan's transformation of it, and a carrier code is only ever text captured from the prefix.",
  "every digit string and plan",
  "Prefix patterns overlap with number patterns differently in every plan; tests use three plans.",
  [("prefix stripping", I+":maybe_strip_national_prefix_and_carrier_code")])
p("P30", "Read operations accept any number object",
  "Classifying, validating, comparing, looking up and formatting never panic and always terminate for any number object a caller can build, including unknown country codes, zero or huge national numbers, inconsistent leading zeros, negative counts, and arbitrary raw input, extension, region and carrier texts.",
  "every combination of field values, every region and carrier string",
  "Objects built by hand reach states parsing never produces; tests build few of them.",
  [("public operations", U+":PhoneNumberUtil"),("formatting", I+":format"),("original format", I+":format_in_original_format"),("alpha out of country", I+":format_out_of_country_keeping_alpha_chars")])
p("P31", "E.164 text round-trips",
  "Writing a number in E.164 form and parsing that text, with any or no default region, gives the same country code and national significant number and no extension, and writing it again gives the same text, provided the country code is supported, the national significant number has 2 to 17 digits, and the national-prefix rule of the plan used leaves that national number unchanged.",
  "every number object with a supported country code and every default region",
  "The round trip crosses the whole parser and every code and plan; tests check a handful of numbers.",
  [("E.164 output", I+":format"),("parsing", I+":parse_helper"),("code extraction", I+":extract_country_code"),("national digits", I+":get_national_significant_number")])
p("P32", "A valid number is possible",
  "Whenever a number is valid, or valid for some region, the length check also calls it possible (possibly as a local-only length), so the quick check never rejects what full validation accepts.",
  "every number object and region, for the bundled metadata",
  "Validity is judged by the number's own region, possibility by the main region of its code; tests compare the two for few numbers.",
  [("validity", I+":is_valid_number"),("possibility", I+":is_possible_number_with_reason"),("length test", H+":test_number_length")])
for q in P:
    assert len(q["title"]) <= 80, q["title"]
    for m in q["anchors"]["mechanism"]:
        f, fn = m["where"].split(":"); t = open("/repo/"+f).read(); assert ("fn "+fn in t) or fn == "PhoneNumberUtil", m
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
