//! The public operations, callable on the published API (Pub) and on the internal object (Util).
use rlibphonenumber::*;
pub type S = String;
pub fn tag(s: &str) -> S { s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
macro_rules! api { ($($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
    pub trait Api { $(fn $name(&self, $($a: $t),*) -> $r;)* }
    #[cfg(verif_hooks)]
    impl Api for verif_hooks::Util { $(fn $name(&self, $($a: $t),*) -> $r { verif_hooks::Util::$name(self, $($a),*) })* }
} }
api! {
    regions() -> Vec<S>; is_nanpa(r: &str) -> bool; cc_for_region(r: &str) -> Option<i32>; region_for_cc(c: i32) -> S; regions_for_cc(c: i32) -> Option<Vec<S>>;
    nsn(n: &PhoneNumber) -> S; format(n: &PhoneNumber, f: PhoneNumberFormat) -> S; format_carrier(n: &PhoneNumber, c: &str) -> S; format_mobile(n: &PhoneNumber, r: &str, w: bool) -> S;
    format_out(n: &PhoneNumber, r: &str) -> S; format_out_alpha(n: &PhoneNumber, r: &str) -> S; format_original(n: &PhoneNumber, r: &str) -> S;
    number_type(n: &PhoneNumber) -> PhoneNumberType; region_for_number(n: &PhoneNumber) -> S; can_dial(n: &PhoneNumber) -> bool; convert_alpha(s: &str) -> S;
    parse(s: &str, r: &str) -> Result<PhoneNumber, S>; parse_raw(s: &str, r: &str) -> Result<PhoneNumber, S>; valid(n: &PhoneNumber) -> bool; valid_for(n: &PhoneNumber, r: &str) -> bool;
    possible(n: &PhoneNumber) -> bool; reason(n: &PhoneNumber) -> Result<NumberLengthType, ValidationError>; truncate(n: &mut PhoneNumber) -> bool;
    is_match(a: &PhoneNumber, b: &PhoneNumber) -> MatchType; is_alpha(s: &str) -> bool; geographical(n: &PhoneNumber) -> bool; area_len(n: &PhoneNumber) -> usize; ndc_len(n: &PhoneNumber) -> usize;
    example(r: &str) -> Result<PhoneNumber, S>; example_type(t: PhoneNumberType) -> Result<PhoneNumber, S>; invalid_example(r: &str) -> Result<PhoneNumber, S>;
}
pub struct Pub;
fn u() -> &'static PhoneNumberUtil { &PHONE_NUMBER_UTIL }
impl Api for Pub {
    fn regions(&self) -> Vec<S> { u().get_supported_regions().map(|s| s.to_string()).collect() }
    fn is_nanpa(&self, r: &str) -> bool { u().is_nanpa_country(r) }
    fn cc_for_region(&self, r: &str) -> Option<i32> { u().get_country_code_for_region(r) }
    fn region_for_cc(&self, c: i32) -> S { u().get_region_code_for_country_code(c).to_string() }
    fn regions_for_cc(&self, c: i32) -> Option<Vec<S>> { u().get_region_codes_for_country_code(c).map(|i| i.map(|s| s.to_string()).collect()) }
    fn nsn(&self, n: &PhoneNumber) -> S { u().get_national_significant_number(n) }
    fn format(&self, n: &PhoneNumber, f: PhoneNumberFormat) -> S { u().format(n, f).into_owned() }
    fn format_carrier(&self, n: &PhoneNumber, c: &str) -> S { u().format_national_number_with_carrier_code(n, c) }
    fn format_mobile(&self, n: &PhoneNumber, r: &str, w: bool) -> S { u().format_number_for_mobile_dialing(n, r, w).into_owned() }
    fn format_out(&self, n: &PhoneNumber, r: &str) -> S { u().format_out_of_country_calling_number(n, r).into_owned() }
    fn format_out_alpha(&self, n: &PhoneNumber, r: &str) -> S { u().format_out_of_country_keeping_alpha_chars(n, r).into_owned() }
    fn format_original(&self, n: &PhoneNumber, r: &str) -> S { u().format_in_original_format(n, r).into_owned() }
    fn number_type(&self, n: &PhoneNumber) -> PhoneNumberType { u().get_number_type(n) }
    fn region_for_number(&self, n: &PhoneNumber) -> S { u().get_region_code_for_number(n).to_string() }
    fn can_dial(&self, n: &PhoneNumber) -> bool { u().can_be_internationally_dialled(n) }
    fn convert_alpha(&self, s: &str) -> S { u().convert_alpha_characters_in_number(s) }
    fn parse(&self, s: &str, r: &str) -> Result<PhoneNumber, S> { u().parse(s, r).map_err(|e| tag(&format!("{e:?}"))) }
    fn parse_raw(&self, s: &str, r: &str) -> Result<PhoneNumber, S> { u().parse_and_keep_raw_input(s, r).map_err(|e| tag(&format!("{e:?}"))) }
    fn valid(&self, n: &PhoneNumber) -> bool { u().is_valid_number(n) }
    fn valid_for(&self, n: &PhoneNumber, r: &str) -> bool { u().is_valid_number_for_region(n, r) }
    fn possible(&self, n: &PhoneNumber) -> bool { u().is_possible_number(n) }
    fn reason(&self, n: &PhoneNumber) -> Result<NumberLengthType, ValidationError> { u().is_possible_number_with_reason(n) }
    fn truncate(&self, n: &mut PhoneNumber) -> bool { u().truncate_too_long_number(n) }
    fn is_match(&self, a: &PhoneNumber, b: &PhoneNumber) -> MatchType { u().is_number_match(a, b) }
    fn is_alpha(&self, s: &str) -> bool { u().is_alpha_number(s) }
    fn geographical(&self, n: &PhoneNumber) -> bool { u().is_number_geographical(n) }
    fn area_len(&self, n: &PhoneNumber) -> usize { u().get_length_of_geographical_area_code(n) }
    fn ndc_len(&self, n: &PhoneNumber) -> usize { u().get_length_of_national_destination_code(n) }
    fn example(&self, r: &str) -> Result<PhoneNumber, S> { u().get_example_number(r).map_err(|e| tag(&format!("{e:?}"))) }
    fn example_type(&self, t: PhoneNumberType) -> Result<PhoneNumber, S> { u().get_example_number_for_type(t).map_err(|e| tag(&format!("{e:?}"))) }
    fn invalid_example(&self, r: &str) -> Result<PhoneNumber, S> { u().get_invalid_example_number(r).map_err(|e| tag(&format!("{e:?}"))) }
}
