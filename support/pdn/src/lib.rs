//! Stands in for the crate `parse_display` in the corpus programs: everything is the real crate's (re-exported),
//! except that `helpers::Parser` records the regexes the real `Parser::new` was given and built.
pub use real::*;
use std::cell::RefCell;
thread_local! {
    static LOG: RefCell<Option<Vec<(String, String)>>> = RefCell::new(None);
}
/// Runs `f` with every parser refusing to match; returns (pattern text given, regex built) of each parser asked.
pub fn log_regexes<X>(f: impl FnOnce() -> X) -> (Vec<(String, String)>, X) {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    let x = f();
    (LOG.with(|l| l.borrow_mut().take()).unwrap(), x)
}
pub mod helpers {
    pub use real::helpers::*;
    pub struct Re {
        re: regex::Regex,
        src: String,
    }
    impl Re {
        pub fn captures<'h>(&self, s: &'h str) -> Option<regex::Captures<'h>> {
            let logging = super::LOG.with(|l| {
                let mut l = l.borrow_mut();
                if let Some(l) = &mut *l {
                    l.push((self.src.clone(), self.re.as_str().to_string()));
                    true
                } else {
                    false
                }
            });
            if logging { None } else { self.re.captures(s) }
        }
    }
    impl std::ops::Deref for Re {
        type Target = regex::Regex;
        fn deref(&self) -> &regex::Regex {
            &self.re
        }
    }
    pub struct Parser {
        pub re: Re,
        pub re_str: String,
        pub ss: Vec<Option<String>>,
    }
    impl Parser {
        #[track_caller]
        pub fn new(s: &str, with: &mut [(&str, Option<(String, regex_syntax::ast::Ast)>)]) -> Self {
            let p = real::helpers::Parser::new(s, with);
            Parser { re: Re { re: p.re, src: s.to_string() }, re_str: p.re_str, ss: p.ss }
        }
    }
}
