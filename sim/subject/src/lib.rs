//! Thin adapter, compiled with the same instrumentation as the library: the library's public
//! methods are generic over `AsRef<str>`, so their bodies are compiled into the caller; here
//! they end up in an instrumented crate and can be pre-empted like the rest of the library.
use rlibphonenumber::*;

pub enum Out<'a> {
    Bool(bool),
    Str(std::borrow::Cow<'a, str>),
    OptI32(Option<i32>),
    Parse(Result<PhoneNumber, ParseError>),
    Example(Result<PhoneNumber, GetExampleNumberError>),
    Usize(usize),
    Type(PhoneNumberType),
    Match(MatchType),
    Reason(Result<NumberLengthType, ValidationError>),
    Iter(Option<Box<dyn ExactSizeIterator<Item = &'a str> + 'a>>),
}

/// The global instance, reached through the library's own lazy static.
#[inline(never)]
pub fn global() -> &'static PhoneNumberUtil {
    &PHONE_NUMBER_UTIL
}

#[inline(never)]
pub fn new_instance() -> PhoneNumberUtil {
    PhoneNumberUtil::new()
}

/// Runs operation `k` (numbering in `ops.rs` of the simulator).
#[inline(never)]
pub fn call<'a, S: AsRef<str>>(
    u: &'a PhoneNumberUtil,
    k: u8,
    num: &'a PhoneNumber,
    num2: &'a PhoneNumber,
    s1: S,
    s2: S,
    i: i32,
    b: bool,
) -> Out<'a> {
    use Out::*;
    match k {
        0 => Parse(u.parse(s1, s2)),
        1 => Parse(u.parse_and_keep_raw_input(s1, s2)),
        2 => Str(u.format(
            num,
            match i {
                0 => PhoneNumberFormat::E164,
                1 => PhoneNumberFormat::International,
                2 => PhoneNumberFormat::National,
                _ => PhoneNumberFormat::RFC3966,
            },
        )),
        3 => Str(u.format_in_original_format(num, s2)),
        4 => Str(u.format_national_number_with_carrier_code(num, s1).into()),
        5 => Str(u.format_number_for_mobile_dialing(num, s2, b)),
        6 => Str(u.format_out_of_country_calling_number(num, s2)),
        7 => Str(u.format_out_of_country_keeping_alpha_chars(num, s2)),
        8 => Bool(u.can_be_internationally_dialled(num)),
        9 => Str(u.convert_alpha_characters_in_number(s1).into()),
        10 => OptI32(u.get_country_code_for_region(s2)),
        11 => Example(u.get_example_number(s2)),
        12 => Example(u.get_example_number_for_type(TYPES[i.rem_euclid(12) as usize])),
        13 => Example(u.get_invalid_example_number(s2)),
        14 => Usize(u.get_length_of_geographical_area_code(num)),
        15 => Usize(u.get_length_of_national_destination_code(num)),
        16 => Str(u.get_national_significant_number(num).into()),
        17 => Type(u.get_number_type(num)),
        18 => Str(u.get_region_code_for_country_code(i).into()),
        19 => Str(u.get_region_code_for_number(num).into()),
        20 => Iter(match u.get_region_codes_for_country_code(i) {
            Some(it) => Some(Box::new(it)),
            None => None,
        }),
        21 => Iter(Some(Box::new(u.get_supported_regions()))),
        22 => Bool(u.is_alpha_number(s1)),
        23 => Bool(u.is_nanpa_country(s2)),
        24 => Bool(u.is_number_geographical(num)),
        25 => Match(u.is_number_match(num, num2)),
        26 => Bool(u.is_possible_number(num)),
        27 => Reason(u.is_possible_number_with_reason(num)),
        28 => Bool(u.is_valid_number(num)),
        29 => Bool(u.is_valid_number_for_region(num, s2)),
        _ => unreachable!(),
    }
}

#[inline(never)]
pub fn truncate(u: &PhoneNumberUtil, num: &mut PhoneNumber) -> bool {
    u.truncate_too_long_number(num)
}

pub const TYPES: [PhoneNumberType; 12] = [
    PhoneNumberType::FixedLine,
    PhoneNumberType::Mobile,
    PhoneNumberType::FixedLineOrMobile,
    PhoneNumberType::TollFree,
    PhoneNumberType::PremiumRate,
    PhoneNumberType::SharedCost,
    PhoneNumberType::VoIP,
    PhoneNumberType::PersonalNumber,
    PhoneNumberType::Pager,
    PhoneNumberType::UAN,
    PhoneNumberType::VoiceMail,
    PhoneNumberType::Unknown,
];

/// Goes through an enumeration in one of the ways the standard library offers. Answers how many
/// items should have come out and those that did.
#[inline(never)]
pub fn walk<'a>(u: &'a PhoneNumberUtil, cc: Option<i32>, how: u8, n: usize) -> Option<(usize, Vec<&'a str>)> {
    match cc {
        Some(c) => u.get_region_codes_for_country_code(c).map(|it| go(it, how, n)),
        None => Some(go(u.get_supported_regions(), how, n)),
    }
}
fn go<'a>(mut it: impl ExactSizeIterator<Item = &'a str>, how: u8, n: usize) -> (usize, Vec<&'a str>) {
    let len = it.len();
    let mut v = vec![];
    let want = match how {
        0 => {
            v = it.collect();
            len
        }
        1 => {
            v = it.fold(v, |mut v, x| {
                v.push(x);
                v
            });
            len
        }
        2 => {
            it.for_each(|x| v.push(x));
            len
        }
        3 => {
            v.extend(it.by_ref().take(n));
            let left = it.len();
            let k = v.len();
            v.extend(it);
            if left + k == len { len } else { usize::MAX }
        }
        4 => {
            while let Some(x) = it.nth(0) {
                v.push(x);
            }
            len
        }
        5 => {
            let by = n % 5 + 1;
            v.extend(it.step_by(by));
            len.div_ceil(by)
        }
        6 => {
            v.extend(it.skip(n));
            len.saturating_sub(n)
        }
        7 => {
            let c = it.count();
            if c == len { 0 } else { usize::MAX }
        }
        8 => {
            v.extend(it.last());
            len.min(1)
        }
        9 => {
            let mut ok = true;
            loop {
                let l = it.len();
                ok &= it.size_hint() == (l, Some(l));
                let Some(x) = it.next() else { break };
                v.push(x);
            }
            // Asked again at the end.
            ok &= it.next().is_none() && it.len() == 0 && it.nth(n).is_none() && it.size_hint() == (0, Some(0));
            if ok { len } else { usize::MAX }
        }
        10 => {
            let _ = it.try_for_each(|x| {
                v.push(x);
                if v.len() % (n + 1) == n { Err(()) } else { Ok(()) }
            });
            let left = it.len();
            let k = v.len();
            v.extend(it);
            if left + k == len { len } else { usize::MAX }
        }
        11 => {
            // Some come out far ahead, the rest one by one.
            v.extend(it.nth(n));
            let left = it.len();
            let l0 = v.len();
            v.extend(it);
            if v.len() - l0 == left && left == len.saturating_sub(n + 1) { len.saturating_sub(n) } else { usize::MAX }
        }
        12 => {
            v.extend(it.max());
            len.min(1)
        }
        _ => {
            v.extend(it.find(|x| x.len() != 2 && n % 2 == 0));
            let k = v.len();
            let left = it.len();
            v.extend(it);
            if v.len() - k == left { v.len() } else { usize::MAX }
        }
    };
    (want, v)
}
