//! Prints everything that is logged.
pub struct StdErrLog(usize, bool);
pub fn new() -> StdErrLog {
    StdErrLog(0, false)
}
static LOGGER: L = L;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{} {}", r.level(), r.args());
    }
    fn flush(&self) {}
}
impl StdErrLog {
    pub fn module<T: Into<String>>(&mut self, _m: T) -> &mut Self {
        self
    }
    pub fn verbosity(&mut self, v: usize) -> &mut Self {
        self.0 = v;
        self
    }
    pub fn quiet(&mut self, q: bool) -> &mut Self {
        self.1 = q;
        self
    }
    pub fn init(&mut self) -> Result<(), log::SetLoggerError> {
        use log::LevelFilter::*;
        log::set_max_level(if self.1 { Off } else { [Error, Warn, Info, Debug, Trace][self.0.min(4)] });
        log::set_logger(&LOGGER)
    }
}
