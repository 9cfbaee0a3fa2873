//! Takes the configuration of a logger; logs to the standard output only, if that is asked for, and not to files.
pub use log::LevelFilter;
use std::io;
use std::path::Path;

#[derive(Debug)]
pub enum Age {
    Day,
    Hour,
    Minute,
    Second,
}
#[derive(Debug)]
pub enum Cleanup {
    Never,
    KeepLogFiles(usize),
}
#[derive(Debug)]
pub enum Criterion {
    Age(Age),
    Size(u64),
    AgeOrSize(Age, u64),
}
#[derive(Debug)]
pub enum Duplicate {
    None,
    Error,
    Warn,
    Info,
    Debug,
    Trace,
    All,
}
#[derive(Debug)]
pub enum Naming {
    Timestamps,
    Numbers,
}
#[derive(Debug, Default)]
pub struct FileSpec;
impl FileSpec {
    pub fn directory(self, _: impl AsRef<Path>) -> Self {
        self
    }
    pub fn basename(self, _: impl AsRef<str>) -> Self {
        self
    }
}
#[derive(Debug, Default)]
pub struct LogSpecBuilder;
pub struct LogSpecification;
impl LogSpecBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn default(&mut self, _: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&self) -> LogSpecification {
        LogSpecification
    }
}
pub struct DeferredNow;
pub struct Now;
impl DeferredNow {
    pub fn now(&mut self) -> Now {
        Now
    }
}
impl Now {
    pub fn to_rfc2822(&self) -> String {
        String::new()
    }
}
pub type FormatFunction = fn(&mut dyn io::Write, &mut DeferredNow, &log::Record<'_>) -> io::Result<()>;
pub struct Logger(bool);
pub struct LoggerHandle;

struct Stdout;
impl log::Log for Stdout {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        println!("{} {}", r.level(), r.args());
    }
    fn flush(&self) {}
}
impl Logger {
    pub fn with(_: LogSpecification) -> Self {
        Self(false)
    }
    pub fn log_to_stdout(self) -> Self {
        Self(true)
    }
    pub fn log_to_file(self, _: FileSpec) -> Self {
        self
    }
    pub fn duplicate_to_stdout(self, _: Duplicate) -> Self {
        self
    }
    pub fn rotate(self, _: Criterion, _: Naming, _: Cleanup) -> Self {
        self
    }
    pub fn format(self, _: FormatFunction) -> Self {
        self
    }
    pub fn start(self) -> io::Result<LoggerHandle> {
        if self.0 && log::set_logger(&Stdout).is_ok() {
            log::set_max_level(log::LevelFilter::Info);
        }
        Ok(LoggerHandle)
    }
}
