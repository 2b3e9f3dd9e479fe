//! A sink for text with bounded room that fails or panics when it is full.
use std::fmt::{Display, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Sink {
    pub room: usize,
    pub panics: bool,
    /// takes whole pieces only
    pub whole: bool,
    pub got: String,
    pub pieces: u64,
    pub failed: bool,
    pub after: u64,
}

impl Sink {
    pub fn new(room: usize, panics: bool) -> Sink {
        Sink { room, panics, whole: false, got: String::new(), pieces: 0, failed: false, after: 0 }
    }
    /// Writes `x`; what happened.
    pub fn print(mut self, x: &dyn Display) -> String {
        let r = catch_unwind(AssertUnwindSafe(|| write!(self, "{}", x)));
        let k = match r {
            Ok(Ok(())) => "written",
            Ok(Err(_)) => "failed",
            Err(_) => "unwound",
        };
        format!("{} {:?}", k, self.got)
    }
}

pub const SINK_PANIC: &str = "the sink panics";

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.pieces += 1;
        if self.failed {
            // a failed sink takes nothing any more
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if self.got.len() + s.len() <= self.room {
            self.got.push_str(s);
            return Ok(());
        }
        if !self.whole {
            let mut n = self.room - self.got.len();
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
        }
        self.failed = true;
        if self.panics {
            panic!("{}", SINK_PANIC);
        }
        Err(std::fmt::Error)
    }
}
