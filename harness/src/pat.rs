//! Patterns of every type, chosen at run time.  Each delegates to the library's own
//! implementation for that type, keyed lookup (`value`) included.

use std::borrow::Cow;

use serde_json::Value;
use soupy::Pattern;

use crate::flat;

/// A user-defined exact pattern (no keyed lookup).
pub struct Exact(pub String);
impl<S: AsRef<str>> Pattern<S> for Exact {
    fn matches(&self, haystack: &S) -> bool {
        haystack.as_ref() == self.0
    }
}

/// A user-defined pattern that ignores ASCII case.
pub struct NoCase(pub String);
impl<S: AsRef<str>> Pattern<S> for NoCase {
    fn matches(&self, haystack: &S) -> bool {
        haystack.as_ref().eq_ignore_ascii_case(&self.0)
    }
}

pub enum Pat {
    Bool(bool),
    Str(&'static str),
    Owned(String, &'static str),
    Cow(Cow<'static, str>, &'static str),
    User(Exact),
    NoCase(NoCase),
    #[cfg(feature = "uses-regex")]
    Re(regex::Regex),
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

impl Pat {
    /// None: not expressible with the features this harness was built with.
    pub fn new(p: &Value) -> Option<Pat> {
        let v = flat::text(&p["v"]);
        Some(match p["t"].as_str().unwrap() {
            "bt" => Pat::Bool(true),
            "bf" => Pat::Bool(false),
            "str" => Pat::Str(leak(v)),
            "string" => Pat::Owned(v.clone(), leak(v)),
            // borrowed and owned copy-on-write strings, depending on the text
            "cow" if v.len() % 2 == 0 => Pat::Cow(Cow::Owned(v.clone()), leak(v)),
            "cow" => Pat::Cow(Cow::Borrowed(leak(v.clone())), leak(v)),
            "user" => Pat::User(Exact(v)),
            "ci" => Pat::NoCase(NoCase(v)),
            "re" => {
                #[cfg(feature = "uses-regex")]
                {
                    let e = regex::escape(&v);
                    Pat::Re(
                        regex::Regex::new(&match p["m"].as_str().unwrap() {
                            "is" => format!(r"\A(?:{e})\z"),
                            "pre" => format!(r"\A(?:{e})"),
                            "suf" => format!(r"(?:{e})\z"),
                            "sub" => e,
                            "low" => format!("(?i){e}"),
                            "line" => format!("(?m)^(?:{e})$"),
                            "two" => format!(r"(?s){e}.*{e}"),
                            m => panic!("HARNESS unknown anchoring {m}"),
                        })
                        .expect("HARNESS bad expression"),
                    )
                }
                #[cfg(not(feature = "uses-regex"))]
                return None;
            }
            t => panic!("HARNESS unknown pattern type {t}"),
        })
    }
}

macro_rules! delegate {
    ($t:ty, $o:ident, $s:ident => $e:expr) => {
        impl Pattern<$t> for &Pat {
            fn matches(&self, h: &$t) -> bool {
                match self {
                    Pat::Bool(x) => Pattern::<$t>::matches(x, h),
                    Pat::Str(x) => Pattern::<$t>::matches(x, h),
                    Pat::Owned($o, $s) => Pattern::<$t>::matches($e, h),
                    Pat::Cow($o, $s) => Pattern::<$t>::matches($e, h),
                    Pat::User(x) => Pattern::<$t>::matches(x, h),
                    Pat::NoCase(x) => Pattern::<$t>::matches(x, h),
                    #[cfg(feature = "uses-regex")]
                    Pat::Re(x) => Pattern::<$t>::matches(x, h),
                }
            }
            fn value(&self) -> Option<$t> {
                match self {
                    Pat::Bool(x) => Pattern::<$t>::value(x),
                    Pat::Str(x) => Pattern::<$t>::value(x),
                    Pat::Owned($o, $s) => Pattern::<$t>::value($e),
                    Pat::Cow($o, $s) => Pattern::<$t>::value($e),
                    Pat::User(x) => Pattern::<$t>::value(x),
                    Pat::NoCase(x) => Pattern::<$t>::value(x),
                    #[cfg(feature = "uses-regex")]
                    Pat::Re(x) => Pattern::<$t>::value(x),
                }
            }
        }
    };
}

delegate!(String, x, _y => x);
delegate!(crate::back::Tagged, x, _y => x);
delegate!(crate::back::Word, x, _y => x);
#[cfg(feature = "uses-lenient")]
delegate!(scraper::StrTendril, x, _y => x);
// texts borrowed from the source: owned strings cannot be patterns there, their text stands in
delegate!(Cow<'static, str>, _x, y => y);
