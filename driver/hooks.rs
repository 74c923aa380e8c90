// Included into the crate under test by the `verif_hooks` cfg: thin wrappers that make the
// crate-private operations callable from the driver.  No logic of its own.
use crate::phonenumberutil::phonenumberutil_internal::PhoneNumberUtilInternal as I;
use crate::phonenumberutil::{errors::*, enums::*, helper_functions as hf};
use crate::generated::proto::{phonemetadata::*, phonenumber::PhoneNumber, phonenumber::phone_number::CountryCodeSource};

pub struct Util(I);
pub const HOOKS: bool = true;
type S = String;
fn pe<T>(r: Result<T, ParseErrorInternal>) -> Result<T, S> { r.map_err(|e| tag(&format!("{:?}", e.into_public()))) }
fn ge<T>(r: Result<T, GetExampleNumberErrorInternal>) -> Result<T, S> { r.map_err(|e| tag(&format!("{:?}", e.into_public()))) }
fn tag(s: &str) -> S { s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
impl Util {
    pub fn bundled() -> Self { Util(I::new().unwrap()) }
    pub fn with(c: PhoneMetadataCollection) -> Self { Util(I::new_for_metadata(c)) }
    pub fn regions(&self) -> Vec<S> { self.0.get_supported_regions().map(|s| s.to_string()).collect() }
    pub fn calling_codes(&self) -> Vec<i32> { self.0.get_supported_calling_codes().collect() }
    pub fn global_codes(&self) -> Vec<i32> { self.0.get_supported_global_network_calling_codes().collect() }
    pub fn is_nanpa(&self, r: &str) -> bool { self.0.is_nanpa_country(r) }
    pub fn types_for_region(&self, r: &str) -> Option<Vec<PhoneNumberType>> { self.0.get_supported_types_for_region(r).map(|s| s.into_iter().collect()) }
    pub fn types_for_non_geo(&self, c: i32) -> Option<Vec<PhoneNumberType>> { self.0.get_supported_types_for_non_geo_entity(c).map(|s| s.into_iter().collect()) }
    pub fn cc_for_region(&self, r: &str) -> Option<i32> { self.0.get_country_code_for_region(r) }
    pub fn ndd(&self, r: &str, strip: bool) -> Option<S> { self.0.get_ndd_prefix_for_region(r, strip) }
    pub fn region_for_cc(&self, c: i32) -> S { self.0.get_region_code_for_country_code(c).to_string() }
    pub fn regions_for_cc(&self, c: i32) -> Option<Vec<S>> { self.0.get_region_codes_for_country_calling_code(c).map(|i| i.map(|s| s.to_string()).collect()) }
    pub fn has_cc(&self, c: i32) -> bool { self.0.has_valid_country_calling_code(c) }
    pub fn nsn(&self, n: &PhoneNumber) -> S { self.0.get_national_significant_number(n) }
    pub fn format(&self, n: &PhoneNumber, f: PhoneNumberFormat) -> S { self.0.format(n, f).expect("format").into_owned() }
    pub fn format_by_pattern(&self, n: &PhoneNumber, f: PhoneNumberFormat, u: &[NumberFormat]) -> Result<S, S> { self.0.format_by_pattern(n, f, u).map_err(|_| "Regex".to_string()) }
    pub fn format_carrier(&self, n: &PhoneNumber, c: &str) -> S { self.0.format_national_number_with_carrier_code(n, c).expect("carrier") }
    pub fn format_preferred_carrier(&self, n: &PhoneNumber, c: &str) -> S { self.0.format_national_number_with_preferred_carrier_code(n, c).expect("carrier") }
    pub fn format_mobile(&self, n: &PhoneNumber, r: &str, w: bool) -> S { self.0.format_number_for_mobile_dialing(n, r, w).expect("mobile").into_owned() }
    pub fn format_out(&self, n: &PhoneNumber, r: &str) -> S { self.0.format_out_of_country_calling_number(n, r).expect("out").into_owned() }
    pub fn format_out_alpha(&self, n: &PhoneNumber, r: &str) -> S { self.0.format_out_of_country_keeping_alpha_chars(n, r).expect("alpha").into_owned() }
    pub fn format_original(&self, n: &PhoneNumber, r: &str) -> S { self.0.format_in_original_format(n, r).expect("original").into_owned() }
    pub fn number_type(&self, n: &PhoneNumber) -> PhoneNumberType { self.0.get_number_type(n).expect("type") }
    pub fn region_for_number(&self, n: &PhoneNumber) -> S { self.0.get_region_code_for_number(n).expect("region").to_string() }
    pub fn can_dial(&self, n: &PhoneNumber) -> bool { self.0.can_be_internationally_dialled(n).expect("dial") }
    pub fn norm_diallable(&self, s: &str) -> S { self.0.normalize_diallable_chars_only(s) }
    pub fn norm_digits(&self, s: &str) -> S { self.0.normalize_digits_only(s) }
    pub fn normalize(&self, s: &str) -> S { self.0.normalize(s) }
    pub fn convert_alpha(&self, s: &str) -> S { self.0.convert_alpha_characters_in_number(s) }
    pub fn parse(&self, s: &str, r: &str) -> Result<PhoneNumber, S> { pe(self.0.parse(s, r)) }
    pub fn parse_raw(&self, s: &str, r: &str) -> Result<PhoneNumber, S> { pe(self.0.parse_and_keep_raw_input(s, r)) }
    pub fn parse_helper(&self, s: &str, r: &str, k: bool, c: bool) -> Result<PhoneNumber, S> { pe(self.0.parse_helper(s, r, k, c)) }
    pub fn valid(&self, n: &PhoneNumber) -> bool { self.0.is_valid_number(n).expect("valid") }
    pub fn valid_for(&self, n: &PhoneNumber, r: &str) -> bool { self.0.is_valid_number_for_region(n, r) }
    pub fn possible(&self, n: &PhoneNumber) -> bool { self.0.is_possible_number(n) }
    pub fn possible_type(&self, n: &PhoneNumber, t: PhoneNumberType) -> bool { self.0.is_possible_number_for_type(n, t) }
    pub fn possible_str(&self, s: &str, r: &str) -> bool { self.0.is_possible_number_for_string(s, r) }
    pub fn reason(&self, n: &PhoneNumber) -> Result<NumberLengthType, ValidationError> { self.0.is_possible_number_with_reason(n) }
    pub fn reason_type(&self, n: &PhoneNumber, t: PhoneNumberType) -> Result<NumberLengthType, ValidationError> { self.0.is_possible_number_for_type_with_reason(n, t) }
    pub fn truncate(&self, n: &mut PhoneNumber) -> bool { self.0.truncate_too_long_number(n).expect("truncate") }
    pub fn viable(&self, s: &str) -> bool { self.0.is_viable_phone_number(s) }
    pub fn strip_ext(&self, s: &str) -> (S, Option<S>) { let (a, b) = self.0.maybe_strip_extension(s); (a.to_string(), b.map(|x| x.to_string())) }
    pub fn build_national(&self, s: &str) -> Result<S, S> { pe(self.0.build_national_number_for_parsing(s)) }
    pub fn extract_possible(&self, s: &str) -> Option<S> { self.0.extract_possible_number(s).ok().map(|x| x.to_string()) }
    pub fn strip_idd(&self, s: &str, p: &str) -> Result<(S, CountryCodeSource), S> { self.0.maybe_strip_international_prefix_and_normalize(s, p).map(|x| (x.phone_number.to_string(), x.country_code_source)).map_err(|_| "Regex".to_string()) }
    pub fn extract_cc(&self, s: &str) -> Option<(S, i32)> { self.0.extract_country_code(s.into()).map(|(a, b)| (a.to_string(), b)) }
    pub fn maybe_extract_cc(&self, region: &str, keep: bool, s: &str, n: &mut PhoneNumber) -> Result<S, S> { let md = self.0.get_metadata_for_region(region); pe(self.0.maybe_extract_country_code(md, keep, s, n)).map(|x| x.to_string()) }
    pub fn strip_national(&self, md: &PhoneMetadata, s: &str) -> Result<(S, Option<S>), S> { self.0.maybe_strip_national_prefix_and_carrier_code(md, s).map(|(a, b)| (a.to_string(), b.map(|x| x.to_string()))).map_err(|_| "Regex".to_string()) }
    pub fn zeros(&self, s: &str) -> Option<usize> { I::get_italian_leading_zeros_for_phone_number(s) }
    pub fn matches_desc(&self, s: &str, d: &PhoneNumberDesc) -> bool { self.0.is_number_matching_desc(s, d) }
    pub fn type_helper(&self, s: &str, m: &PhoneMetadata) -> PhoneNumberType { self.0.get_number_type_helper(s, m) }
    pub fn test_length(&self, s: &str, m: &PhoneMetadata, t: PhoneNumberType) -> Result<NumberLengthType, ValidationError> { hf::test_number_length(s, m, t) }
    pub fn is_match(&self, a: &PhoneNumber, b: &PhoneNumber) -> MatchType { self.0.is_number_match(a, b) }
    pub fn is_match_1(&self, a: &PhoneNumber, b: &str) -> Option<MatchType> { self.0.is_number_match_with_one_string(a, b).ok() }
    pub fn is_match_2(&self, a: &str, b: &str) -> Option<MatchType> { self.0.is_number_match_with_two_strings(a, b).ok() }
    pub fn is_alpha(&self, s: &str) -> bool { self.0.is_alpha_number(s) }
    pub fn geographical(&self, n: &PhoneNumber) -> bool { self.0.is_number_geographical(n).expect("geo") }
    pub fn area_len(&self, n: &PhoneNumber) -> usize { self.0.get_length_of_geographical_area_code(n).expect("area") }
    pub fn ndc_len(&self, n: &PhoneNumber) -> usize { self.0.get_length_of_national_destination_code(n).expect("ndc") }
    pub fn example(&self, r: &str) -> Result<PhoneNumber, S> { ge(self.0.get_example_number(r)) }
    pub fn example_type_region(&self, r: &str, t: PhoneNumberType) -> Result<PhoneNumber, S> { ge(self.0.get_example_number_for_type_and_region_code(r, t)) }
    pub fn example_type(&self, t: PhoneNumberType) -> Result<PhoneNumber, S> { ge(self.0.get_example_number_for_type(t)) }
    pub fn example_non_geo(&self, c: i32) -> Result<PhoneNumber, S> { ge(self.0.get_example_number_for_non_geo_entity(c)) }
    pub fn invalid_example(&self, r: &str) -> Result<PhoneNumber, S> { ge(self.0.get_invalid_example_number(r)) }
}
pub struct Cache(crate::regexp_cache::RegexCache);
impl Cache {
    pub fn new() -> Self { Cache(crate::regexp_cache::RegexCache::with_capacity(4)) }
    pub fn get(&self, p: &str) -> Option<String> { self.0.get_regex(p).ok().map(|r| r.as_str().to_string()) }
}
/// the library's own patterns and character maps (input generation looks for texts they treat differently from the reference)
#[cfg(verif_pats)]
pub fn patterns() -> Vec<(&'static str, String)> {
    let r = super::phone_number_regexps_and_mappings::PhoneNumberRegExpsAndMappings::new();
    macro_rules! p { ($($f:ident),*) => { vec![$((stringify!($f), r.$f.as_str().to_string())),*] } }
    p!(single_international_prefix, digits_pattern, capturing_digit_pattern, capturing_ascii_digits_pattern, valid_start_char_pattern, capture_up_to_second_number_start_pattern, unwanted_end_char_pattern,
       separator_pattern, extn_pattern, valid_phone_number_pattern, valid_alpha_phone_pattern, first_group_capturing_pattern, carrier_code_pattern, plus_chars_pattern, rfc3966_global_number_digits_pattern,
       rfc3966_domainname_pattern, formatting_rule_has_first_group_only_regex)
}
#[cfg(verif_pats)]
pub fn maps() -> Vec<(&'static str, Vec<(char, char)>)> {
    let r = super::phone_number_regexps_and_mappings::PhoneNumberRegExpsAndMappings::new();
    macro_rules! p { ($($f:ident),*) => { vec![$((stringify!($f), { let mut v: Vec<(char, char)> = r.$f.iter().map(|(a, b)| (*a, *b)).collect(); v.sort(); v })),*] } }
    p!(diallable_char_mappings, alpha_mappings, alpha_phone_mappings, all_plus_number_grouping_symbols)
}
