//! Shared plumbing of the conformance drivers: a minimal JSON reader and
//! writer, panic capture, the stderr tap and the hang watchdog.
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("DRIVER: missing {k} in {self:?}"))
    }
    pub fn int(&self, k: &str) -> i64 {
        self.get(k).map(|j| j.as_i()).unwrap_or(0)
    }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::S(s)) => s,
            _ => "",
        }
    }
    pub fn bytes(&self, k: &str) -> Vec<u8> {
        self.get(k).map(|j| j.as_bytes()).unwrap_or_default()
    }
    pub fn as_i(&self) -> i64 {
        match self {
            J::I(n) => *n,
            J::B(b) => *b as i64,
            _ => panic!("DRIVER: not an int {self:?}"),
        }
    }
    pub fn as_s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("DRIVER: not a string"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("DRIVER: not an array {self:?}"),
        }
    }
    pub fn as_bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|j| j.as_i() as u8).collect()
    }
    pub fn bytes_of(b: &[u8]) -> J {
        J::A(units(b).iter().map(|x| J::I(*x as i64)).collect())
    }
    pub fn ints<I: IntoIterator<Item = i64>>(b: I) -> J {
        J::A(b.into_iter().map(J::I).collect())
    }
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                let _ = write!(o, "\\u{u:04x}");
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let j = pv(b, &mut i);
        j
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::J::O(vec![$(($k.to_string(), $v.into())),*]) };
}

impl From<bool> for J {
    fn from(b: bool) -> J {
        J::B(b)
    }
}
impl From<i64> for J {
    fn from(b: i64) -> J {
        J::I(b)
    }
}
impl From<usize> for J {
    fn from(b: usize) -> J {
        J::I(cap(b))
    }
}
impl From<&str> for J {
    fn from(b: &str) -> J {
        J::s(b)
    }
}
impl From<String> for J {
    fn from(b: String) -> J {
        J::S(b)
    }
}
impl From<Vec<J>> for J {
    fn from(b: Vec<J>) -> J {
        J::A(b)
    }
}
impl From<&[u8]> for J {
    fn from(b: &[u8]) -> J {
        J::bytes_of(b)
    }
}
impl From<Vec<i64>> for J {
    fn from(v: Vec<i64>) -> J {
        J::ints(v)
    }
}
impl From<Vec<u8>> for J {
    fn from(b: Vec<u8>) -> J {
        J::bytes_of(&b)
    }
}
impl From<&Vec<u8>> for J {
    fn from(b: &Vec<u8>) -> J {
        J::bytes_of(b)
    }
}

/// The unit of sizes and positions.
pub static SCALE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

pub fn scale() -> usize {
    SCALE.load(std::sync::atomic::Ordering::Relaxed)
}

/// Sizes are capped so that TLC's 32-bit integers can hold them; -7 is not a
/// whole number of units.
pub fn cap(n: usize) -> i64 {
    match scale() {
        1 => n.min(1_000_000_000) as i64,
        k if n / k > 1_000_000 => 1_000_000_000,
        k if n % k == 0 => (n / k) as i64,
        _ => -7,
    }
}

/// bytes in units, each of equal bytes
pub fn units(b: &[u8]) -> Vec<u8> {
    match scale() {
        1 => b.to_vec(),
        k if b.len() % k == 0 && b.chunks(k).all(|c| c.iter().all(|x| *x == c[0])) => {
            b.chunks(k).map(|c| c[0]).collect()
        }
        _ => vec![7, 7, 7],
    }
}

/// units as bytes
pub fn expand(b: Vec<u8>) -> Vec<u8> {
    match scale() {
        1 => b,
        k => {
            let mut all = vec![0u8; b.len() * k];
            for (i, x) in b.iter().enumerate().filter(|(_, x)| **x != 0) {
                all[i * k..(i + 1) * k].fill(*x);
            }
            all
        }
    }
}

/// a hexadecimal text in units
pub fn hex_units(s: String) -> String {
    if scale() == 1 {
        return s;
    }
    match unhex(&s) {
        Some(b) => units(&b).iter().map(|x| format!("{x:02x}")).collect(),
        None => "not hexadecimal".into(),
    }
}

/// Script integers: negative numbers count down from usize::MAX.
pub fn size(n: i64) -> usize {
    if n < 0 {
        usize::MAX - ((-n) as usize - 1)
    } else {
        n as usize
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn pv(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::O(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match pv(b, i) {
                    J::S(s) => s,
                    _ => panic!("DRIVER: bad key"),
                };
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                let x = pv(b, i);
                v.push((k, x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::A(v);
                    }
                    b',' => *i += 1,
                    _ => v.push(pv(b, i)),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut o: Vec<u16> = Vec::new();
            let mut raw: Vec<u8> = Vec::new();
            let mut s = String::new();
            macro_rules! flush {
                () => {
                    if !raw.is_empty() {
                        s.push_str(std::str::from_utf8(&raw).unwrap());
                        raw.clear();
                    }
                    if !o.is_empty() {
                        s.push_str(&String::from_utf16_lossy(&o));
                        o.clear();
                    }
                };
            }
            loop {
                match b[*i] {
                    b'"' => {
                        *i += 1;
                        flush!();
                        return J::S(s);
                    }
                    b'\\' => {
                        let c = b[*i + 1];
                        *i += 2;
                        if c == b'u' {
                            if !raw.is_empty() {
                                flush!();
                            }
                            let h = std::str::from_utf8(&b[*i..*i + 4]).unwrap();
                            o.push(u16::from_str_radix(h, 16).unwrap());
                            *i += 4;
                        } else {
                            flush!();
                            raw.push(match c {
                                b'n' => b'\n',
                                b't' => b'\t',
                                b'r' => b'\r',
                                b'b' => 8,
                                b'f' => 12,
                                c => c,
                            });
                        }
                    }
                    c => {
                        if !o.is_empty() {
                            flush!();
                        }
                        raw.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::I(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}

/// What a cleanup reported, or how it went wrong.
pub fn left(r: Result<Result<tedium::parse::cleanup::LeftoverState, String>, String>) -> J {
    use tedium::parse::cleanup::LeftoverState as L;
    let (k, segs, len, empty) = match r {
        Err(_) => ("panic", vec![], 0, false),
        Ok(Err(_)) => ("error", vec![], 0, false),
        Ok(Ok(l)) => {
            let (len, empty) = (l.len(), l.is_empty());
            // the segments, through the public Display of the windowed form
            let (k, segs) = match &l {
                L::Empty => ("empty", vec![]),
                L::Windowless(v) => ("flat", vec![J::bytes_of(v)]),
                L::Windowed(sv) => {
                    ("windowed", match groups(&format!("{sv}")) {
                        J::A(v) => v,
                        _ => vec![],
                    })
                }
            };
            (k, segs, len, empty)
        }
    };
    obj! {"k": k, "segs": segs, "len": len, "empty": empty}
}

/// Runs `f`, turning a panic into data.  A panic of the driver itself (its
/// message starts with DRIVER) is passed on.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if m.starts_with("DRIVER") {
                let _ = writeln!(std::io::stdout(), "{m}");
                std::process::exit(2);
            }
            Err(m)
        }
    }
}

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Called before every operation on the code under test.
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// Silences panic messages and starts the watchdog: when no operation ends
/// within the limit the process exits with status 9.
pub fn start() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last {
                last = b;
                idle = 0;
            } else {
                idle += 1;
                if idle >= 40 {
                    std::process::exit(9);
                }
            }
        }
    });
}

/// What the code under test printed to stderr.  The runner redirects fd 2 to
/// the file named by VH_STDERR; this reads what was appended to it.
pub struct Tap(Option<std::fs::File>, u64);
impl Tap {
    pub fn new() -> Tap {
        match std::env::var("VH_STDERR") {
            Ok(p) => Tap(Some(std::fs::File::open(p).expect("DRIVER: tap")), 0),
            Err(_) => Tap(None, 0),
        }
    }
    pub fn take(&mut self) -> String {
        let Some(f) = &mut self.0 else { return String::new() };
        let n = f.metadata().map(|m| m.len()).unwrap_or(0);
        if n <= self.1 {
            return String::new();
        }
        let _ = f.seek(SeekFrom::Start(self.1));
        let mut s = Vec::new();
        let _ = f.read_to_end(&mut s);
        self.1 += s.len() as u64;
        String::from_utf8_lossy(&s).into_owned()
    }
}

/// "[|aabb|cc|]" -> [[170,187],[204]]; anything else -> [[-1]]
pub fn groups(line: &str) -> J {
    let bad = || J::A(vec![J::A(vec![J::I(-1)])]);
    let l = line.trim();
    let Some(x) = l.strip_prefix("[|").and_then(|x| x.strip_suffix(']')) else { return bad() };
    if x.is_empty() {
        return J::A(vec![]);
    }
    let Some(x) = x.strip_suffix('|') else { return bad() };
    let mut out = Vec::new();
    for g in x.split('|') {
        match unhex(g) {
            Some(b) => out.push(J::bytes_of(&b)),
            None => return bad(),
        }
    }
    J::A(out)
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| {
            let d = &s[2 * i..2 * i + 2];
            if d.bytes().all(|c| c.is_ascii_hexdigit() && !c.is_ascii_uppercase()) {
                u8::from_str_radix(d, 16).ok()
            } else {
                None
            }
        })
        .collect()
}

/// The main loop of a driver: one script line in, one log line out, flushed
/// per line so that the line a crash happened in can be told.
pub fn run(mut f: impl FnMut(&J) -> J) {
    start();
    let args: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&args[1]).expect("DRIVER: script");
    let out = std::fs::File::create(&args[2]).expect("DRIVER: log");
    let mut out = std::io::BufWriter::with_capacity(1 << 16, out);
    let mark = args.get(3).map(|p| std::fs::File::create(p).expect("DRIVER: mark"));
    for (i, line) in src.lines().enumerate() {
        if line.is_empty() {
            continue;
        }
        if let Some(mut m) = mark.as_ref() {
            let _ = m.seek(SeekFrom::Start(0));
            let _ = m.write_all(format!("{i:010}").as_bytes());
        }
        beat();
        let v = J::parse(line);
        // a panic that escapes the interpreter is a crash of the code under test
        let r = match quiet(|| f(&v)) {
            Ok(r) => r,
            Err(_) => std::process::exit(70),
        };
        let mut s = String::new();
        r.write(&mut s);
        s.push('\n');
        out.write_all(s.as_bytes()).expect("DRIVER: log");
    }
    out.flush().expect("DRIVER: log");
}

pub mod err;
#[cfg(feature = "serde")]
pub mod ser;
