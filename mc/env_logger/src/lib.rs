//! A silent stand-in for `env_logger` (the binaries only initialise it).
use log::{LevelFilter, SetLoggerError};
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn from_env<'a>(_: impl Into<Env<'a>>) -> Self { Builder }
    pub fn filter_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn filter(&mut self, _: Option<&str>, _: LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _: &str, _: LevelFilter) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn parse_default_env(&mut self) -> &mut Self { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn format_timestamp_millis(&mut self) -> &mut Self { self }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), SetLoggerError> { Ok(()) }
}
#[derive(Default)]
pub struct Env<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Env<'a> {
    pub fn new() -> Self { Env(std::marker::PhantomData) }
    pub fn default_filter_or(self, _: &'a str) -> Self { self }
    pub fn filter_or(self, _: &'a str, _: &'a str) -> Self { self }
}
impl<'a> From<&'a str> for Env<'a> { fn from(_: &'a str) -> Self { Env::new() } }
pub fn init() {}
pub fn try_init() -> Result<(), SetLoggerError> { Ok(()) }
pub fn builder() -> Builder { Builder }
