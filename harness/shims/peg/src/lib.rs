//! Stand-in for the crate `peg` 0.8 (not available offline): the part of its interface that
//! redscript-compiler uses, with the same parsing semantics (ordered choice, greedy repetition,
//! two-pass error reporting).
pub use peg_macros::parser;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RuleResult<T> {
    Matched(usize, T),
    Failed,
}

pub trait ParseLiteral {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()>;
}

impl ParseLiteral for std::primitive::str {
    fn parse_string_literal(&self, pos: usize, literal: &std::primitive::str) -> RuleResult<()> {
        let l = literal.len();
        if self.len() >= pos + l && &self.as_bytes()[pos..pos + l] == literal.as_bytes() {
            RuleResult::Matched(pos + l, ())
        } else {
            RuleResult::Failed
        }
    }
}

#[doc(hidden)]
pub fn parse_elem(input: &std::primitive::str, pos: usize) -> RuleResult<char> {
    match input[pos..].chars().next() {
        Some(c) => RuleResult::Matched(pos + c.len_utf8(), c),
        None => RuleResult::Failed,
    }
}

pub mod str {
    use std::fmt::{self, Display};

    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }

    impl Display for LineCol {
        fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
            write!(fmt, "{}:{}", self.line, self.column)
        }
    }

    pub(crate) fn position_repr(input: &str, pos: usize) -> LineCol {
        let before = &input[..pos];
        let line = before.as_bytes().iter().filter(|&&c| c == b'\n').count() + 1;
        let column = before.chars().rev().take_while(|&c| c != '\n').count() + 1;
        LineCol {
            line,
            column,
            offset: pos,
        }
    }
}

pub mod error {
    use std::collections::HashSet;
    use std::fmt::{self, Debug, Display};

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ExpectedSet {
        expected: HashSet<&'static str>,
    }

    impl ExpectedSet {
        pub fn tokens(&self) -> impl Iterator<Item = &'static str> + '_ {
            self.expected.iter().copied()
        }
    }

    impl Display for ExpectedSet {
        fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
            if self.expected.is_empty() {
                write!(fmt, "<unreported>")?;
            } else if self.expected.len() == 1 {
                write!(fmt, "{}", self.expected.iter().next().unwrap())?;
            } else {
                let mut errors = self.tokens().collect::<Vec<_>>();
                errors.sort();
                let mut iter = errors.into_iter();
                write!(fmt, "one of {}", iter.next().unwrap())?;
                for elem in iter {
                    write!(fmt, ", {}", elem)?;
                }
            }
            Ok(())
        }
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }

    impl<L: Display> Display for ParseError<L> {
        fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
            write!(fmt, "error at {}: expected {}", self.location, self.expected)
        }
    }

    impl<L: Display + Debug> std::error::Error for ParseError<L> {}

    #[doc(hidden)]
    pub struct ErrorState {
        pub max_err_pos: usize,
        pub suppress_fail: usize,
        pub reparsing_on_error: bool,
        pub expected: ExpectedSet,
    }

    impl ErrorState {
        pub fn new() -> Self {
            ErrorState {
                max_err_pos: 0,
                suppress_fail: 0,
                reparsing_on_error: false,
                expected: ExpectedSet {
                    expected: HashSet::new(),
                },
            }
        }

        pub fn reparse_for_error(&mut self) {
            self.suppress_fail = 0;
            self.reparsing_on_error = true;
        }

        #[inline(always)]
        pub fn mark_failure(&mut self, pos: usize, expected: &'static str) {
            if self.suppress_fail == 0 {
                if self.reparsing_on_error {
                    if self.max_err_pos == pos {
                        self.expected.expected.insert(expected);
                    }
                } else if self.max_err_pos < pos {
                    self.max_err_pos = pos;
                }
            }
        }

        pub fn into_parse_error(self, input: &str) -> ParseError<super::str::LineCol> {
            ParseError {
                location: super::str::position_repr(input, self.max_err_pos),
                expected: self.expected,
            }
        }
    }
}
