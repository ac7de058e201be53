//! Encodes and decodes values of many types and records what happened.
#[macro_use]
mod descr;
mod types;
use descr::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use tedium::conv::error::DecodeError;
use tedium::conv::EncodeLength;
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::ParserExt;
use tedium::*;
use types::*;
use vh::err::{self, E};
use vh::{beat, cap, groups, left, obj, quiet, Tap, J};

thread_local! { static TAP: RefCell<Tap> = RefCell::new(Tap::new()); }

fn tokens<T: Descr>(x: &T) -> Vec<i64> {
    let mut o = vec![];
    x.put(&mut o);
    o
}

/// The outcome of a decoding: its value as tokens and its encoding.
type Parsed = Result<(Vec<i64>, Vec<u8>), ParseError>;

fn parse1<P: Parser, T: Descr + Decode + Encode>(p: &mut P) -> Parsed {
    let x = T::parse(p)?;
    Ok((tokens(&x), x.to_bytes()))
}

/// One decoding by one parser, within `win` bytes after `pre` bytes.
fn with<P: ParserExtra>(mut p: P, name: &str, pre: usize, win: i64, trace: bool, f: fn(&mut P) -> Parsed) -> J {
    if pre > 0 {
        let _ = p.consume(pre).map(|b| b.len());
    }
    let opened = win < 0 || p.set_fit(win as usize).is_ok();
    assert!(opened, "DRIVER: window");
    if trace {
        let _ = TAP.with(|t| t.borrow_mut().take());
    }
    let r = quiet(|| f(&mut p));
    let post = quiet(|| (cap(p.offset()), cap(p.remainder()), cap(p.view_len())));
    let (off, rem, vl) = post.unwrap_or((-1, -1, -1));
    let (ok, v, e, re) = match r {
        Err(_) => (false, vec![], E::panic(), vec![]),
        Ok(Err(e)) => {
            let _ = quiet(|| format!("{e} {e:?}"));
            (false, vec![], err::parse(&e), vec![])
        }
        Ok(Ok((v, b))) => (true, v, E::none(), b),
    };
    let tr: Vec<J> = if trace && ok {
        let _ = TAP.with(|t| t.borrow_mut().take());
        p.dump();
        let s = TAP.with(|t| t.borrow_mut().take());
        s.lines().filter(|l| l.starts_with('[')).map(groups).collect()
    } else {
        vec![]
    };
    obj! {"p": name, "ok": ok, "v": v, "e": e.j(), "off": off, "rem": rem, "vl": vl, "re": re, "tr": tr}
}

pub trait ParserExtra: Parser {
    fn dump(&self) {}
}
impl ParserExtra for ByteParser {}
impl ParserExtra for SliceParser<'_> {}
impl ParserExtra for MemoParser {
    fn dump(&self) {
        self.dump_state()
    }
}

fn conv<P: Parser, U: TryIntoParser<P>>(u: U) -> P {
    u.try_into_parser().unwrap_or_else(|_| panic!("DRIVER: conversion"))
}

type Tried = Result<Vec<i64>, DecodeError>;

fn tried(f: &dyn Fn() -> Tried) -> J {
    let (ok, v, e) = match quiet(f) {
        Err(_) => (false, vec![], E::panic()),
        Ok(Ok(v)) => (true, v, E::none()),
        Ok(Err(e)) => (false, vec![], decode_error(&e)),
    };
    obj! {"ok": ok, "v": v, "e": e.j()}
}

fn decode_error(e: &DecodeError) -> E {
    let _ = quiet(|| format!("{e:?}"));
    match e {
        DecodeError::Parse(p) => quiet(|| err::decode(e, p)).unwrap_or_else(|_| err::E::panic()),
        DecodeError::Conv(_) => E::k("conv"),
        DecodeError::NonEmpty(l) => {
            let b = match l {
                LeftoverState::Empty => vec![],
                LeftoverState::Windowless(v) => v.clone(),
                LeftoverState::Windowed(_) => vec![],
            };
            E { x: cap(l.len()), y: matches!(l, LeftoverState::Windowless(_)) as i64, b, ..E::k("nonempty") }
        }
        _ => E::k("other"),
    }
}

/// Everything a type can be asked to do, behind function pointers, so that
/// little code is generated per type.
struct Dec {
    byte: fn(&mut ByteParser) -> Parsed,
    memo: fn(&mut MemoParser) -> Parsed,
    slice: for<'a> fn(&mut SliceParser<'a>) -> Parsed,
    tries: [fn(&[u8]) -> Tried; 5],
}
fn slice1<T: Descr + Decode + Encode>(p: &mut SliceParser<'_>) -> Parsed {
    parse1::<SliceParser, T>(p)
}
fn decoders<T: Descr + Decode + Encode>() -> Dec {
    Dec {
        byte: parse1::<ByteParser, T>,
        memo: parse1::<MemoParser, T>,
        slice: slice1::<T>,
        tries: [
            |b| T::try_decode::<Vec<u8>, ByteParser>(b.to_vec()).map(|x| tokens(&x)),
            |b| T::try_decode::<&[u8], MemoParser>(b).map(|x| tokens(&x)),
            |b| T::try_decode::<&[u8], SliceParser>(b).map(|x| tokens(&x)),
            |b| Ok(tokens(&T::decode(b.to_vec()))),
            |b| Ok(tokens(&T::decode_memo(b.to_vec()))),
        ],
    }
}

fn three(d: &Dec, buf: &[u8], pre: usize, win: i64, trace: bool) -> J {
    beat();
    J::A(vec![
        with::<ByteParser>(conv(buf.to_vec()), "byte", pre, win, false, d.byte),
        with::<MemoParser>(conv(buf), "memo", pre, win, trace, d.memo),
        with::<SliceParser>(conv(buf), "slice", pre, win, false, d.slice),
    ])
}

/// Types decoded and windows handled in turn on one parser.
fn mix<P: ParserExtra + ParserExt>(mut p: P, name: &str, reg: &Registry, s: &J, f: fn(&Dec, &mut P) -> Parsed) -> J {
    let mut steps = Vec::new();
    let mut dead = false;
    for t in s.at("steps").arr() {
        beat();
        let n = t.get("n").map(|j| j.as_i()).unwrap_or(0) as usize;
        let r = quiet(|| match t.str("o") {
            "dec" => {
                let o = reg.get(t.str("t")).unwrap_or_else(|| panic!("DRIVER: type {t:?}"));
                f(&o.dec[0], &mut p).map(|(v, b)| (v, b, 0))
            }
            "open" => p.set_fit(n).map(|_| (vec![], vec![], 0)),
            "close" => p.enforce_target().map(|_| (vec![], vec![], 0)),
            "test" => p.test_target().map(|b| (vec![], vec![], b as usize)),
            "take" => p.consume(n).map(|b| (vec![], b.to_vec(), b.len())),
            "skip" => ParserExt::skip(&mut p, n).map(|n| (vec![], vec![], n)),
            o => panic!("DRIVER: step {o}"),
        });
        let (ok, v, b, n, e) = match r {
            Err(_) => (false, vec![], vec![], 0, E::panic()),
            Ok(Err(e)) => (false, vec![], vec![], 0, err::parse(&e)),
            Ok(Ok((v, b, n))) => (true, v, b, cap(n), E::none()),
        };
        let post = quiet(|| (cap(p.offset()), cap(p.remainder()), cap(p.view_len())));
        let (off, rem, vl) = post.unwrap_or((-1, -1, -1));
        dead = e.k == "panic" || off < 0;
        steps.push(obj! {"p": name, "ok": ok, "v": v, "re": b, "n": n, "e": e.j(), "off": off, "rem": rem, "vl": vl,
                         "tr": Vec::<J>::new()});
        if dead {
            break;
        }
    }
    let _ = TAP.with(|t| t.borrow_mut().take());
    p.dump();
    let shown = TAP.with(|t| t.borrow_mut().take());
    let tr: Vec<J> = shown.lines().filter(|l| l.starts_with('[')).map(groups).collect();
    let left = left(quiet(|| if dead { Err("dead".into()) } else { p.cleanup().map_err(|e| format!("{e}")) }));
    let _ = TAP.with(|t| t.borrow_mut().take());
    obj! {"p": name, "steps": steps, "tr": tr, "left": left}
}

fn mixed(reg: &Registry, s: &J) -> J {
    let buf = s.bytes("buf");
    let p = vec![
        mix::<ByteParser>(conv(buf.clone()), "byte", reg, s, |d, p| (d.byte)(p)),
        mix::<MemoParser>(conv(&buf[..]), "memo", reg, s, |d, p| (d.memo)(p)),
        mix::<SliceParser>(conv(&buf[..]), "slice", reg, s, |d, p| (d.slice)(p)),
    ];
    obj! {"op": "mix", "t": s.str("t"), "frame": 0i64, "buf": buf, "steps": s.at("steps").clone(), "p": p}
}

fn dec(d: &Dec, s: &J) -> J {
    let buf = s.bytes("buf");
    let (pre, win) = (s.int("pre") as usize, s.get("win").map(|j| j.as_i()).unwrap_or(-1));
    let p = three(d, &buf, pre, win, s.int("tr") == 1);
    let tr: Vec<J> =
        if pre == 0 && win < 0 { d.tries.iter().map(|f| tried(&|| f(&buf))).collect() } else { vec![] };
    let _ = TAP.with(|t| t.borrow_mut().take());
    obj! {"op": "dec", "t": s.str("t"), "frame": s.int("frame"), "buf": buf, "pre": pre as i64, "win": win,
          "p": p, "try": tr}
}

/// What one decoding of a long input came to, without the value.
fn long(r: Result<Parsed, String>, buf: &[u8], at: usize, post: Option<[i64; 3]>) -> J {
    let [off, rem, vl] = post.unwrap_or([-1; 3]);
    let (ok, e, cnt, same) = match r {
        Err(_) => (false, E::panic(), 0, false),
        Ok(Err(e)) => (false, err::parse(&e), 0, false),
        Ok(Ok((v, b))) => (true, E::none(), v.first().copied().unwrap_or(0), b[..] == buf[..at.min(buf.len())]),
    };
    obj! {"ok": ok, "e": E { b: vec![], m: vec![], src: vec![], ..e }.j(), "cnt": cnt, "same": same, "off": off, "rem": rem, "vl": vl}
}

fn pump1<P: ParserExtra>(mut p: P, win: i64, buf: &[u8], f: fn(&mut P) -> Parsed) -> J {
    beat();
    let opened = win < 0 || p.set_fit(win as usize).is_ok();
    assert!(opened, "DRIVER: window");
    let room = p.remainder();
    let r = quiet(|| f(&mut p)).map_err(|_| String::new());
    let used = room.saturating_sub(p.remainder());
    let post = quiet(|| [cap(p.offset()), cap(p.remainder()), cap(p.view_len())]).ok();
    long(r, buf, used, post)
}

/// An input of many repetitions: an optional length prefix, the pattern `n`
/// times, and a tail.
fn pump(d: &Dec, s: &J) -> J {
    let (pat, tail, n) = (s.bytes("pat"), s.bytes("tail"), s.int("n") as usize);
    let (w, lie) = (s.int("w") as usize, s.int("lie"));
    let body = pat.repeat(n);
    let len = (body.len() as i64 + lie) as u64;
    let mut buf = len.to_be_bytes()[8 - w..].to_vec();
    buf.extend_from_slice(&body);
    buf.extend_from_slice(&tail);
    let win = if s.int("win") == 1 { (w + body.len()) as i64 } else { -1 };
    let p = vec![
        pump1::<ByteParser>(conv(buf.clone()), win, &buf, d.byte),
        pump1::<MemoParser>(conv(&buf[..]), win, &buf, d.memo),
        pump1::<SliceParser>(conv(&buf[..]), win, &buf, d.slice),
    ];
    let tr: Vec<J> = if win < 0 { d.tries.iter().map(|f| {
        beat();
        let (ok, k, cnt) = match quiet(|| f(&buf)) {
            Err(_) => (false, "panic".to_string(), 0),
            Ok(Ok(v)) => (true, "none".to_string(), v.first().copied().unwrap_or(0)),
            Ok(Err(DecodeError::Parse(e))) => (false, err::parse(&e).k.to_string(), 0),
            Ok(Err(DecodeError::NonEmpty(_))) => (false, "nonempty".to_string(), 0),
            Ok(Err(_)) => (false, "other".to_string(), 0),
        };
        obj! {"ok": ok, "k": k, "cnt": cnt}
    }).collect() } else { vec![] };
    obj! {"op": "pump", "t": s.str("t"), "frame": s.int("frame"), "pat": pat, "tail": tail, "n": n as i64, "m": s.int("m"),
          "w": w as i64, "lie": lie, "win": s.int("win"), "p": p, "try": tr}
}

/// The encoding entry points: the destination afterwards and the number
/// reported.
const WRITERS: usize = 13;
/// the ends of a builder's segments that are not empty
fn ends(b: &MemoBuilder) -> Vec<i64> {
    let d = format!("{b}");
    let mut at = 0;
    d.strip_prefix("[|").and_then(|d| d.strip_suffix(']')).unwrap_or("?").split('|')
        .filter(|x| !x.is_empty()).map(|x| { at += x.len() as i64 / 2; at }).collect()
}
type Written = (&'static str, Vec<u8>, usize, Vec<i64>);
fn write1<T: Descr + Encode + Estimable>(x: &T, i: usize) -> Written {
    fn l(w: &'static str, b: Vec<u8>) -> (&'static str, Vec<u8>, usize) {
        let n = b.len();
        (w, b, n)
    }
    let mut cuts = vec![];
    let (w, b, n) = match i {
        0 => {
            let mut b: Vec<u8> = vec![];
            let n = x.write_to(&mut b);
            ("vec", b, n)
        }
        1 => {
            let mut b: Vec<u8> = vec![9, 9];
            let n = x.write_to(&mut b);
            ("append", b, n + 2)
        }
        2 => {
            let mut b: Vec<u8> = vec![9, 9];
            x.write_to_vec(&mut b);
            l("to_vec", b)
        }
        3 => l("encode", x.encode::<Vec<u8>>()),
        4 => {
            let mut b = StrictBuilder::create();
            let n = x.write_to(&mut b);
            ("strict", b.into_vec(), n)
        }
        5 => l("encstrict", x.encode::<StrictBuilder>().into_vec()),
        6 => {
            let mut b = MemoBuilder::create();
            let n = x.write_to(&mut b);
            cuts = ends(&b);
            ("memo", b.into_vec(), n)
        }
        7 => {
            let b = x.encode::<MemoBuilder>();
            cuts = ends(&b);
            l("encmemo", b.into_vec())
        }
        8 => {
            let mut b = HexString::create();
            let n = x.write_to(&mut b);
            ("hex", b.into_inner(), n)
        }
        9 => l("enchex", x.encode::<HexString>().into_inner()),
        10 => l("to_bytes", x.to_bytes()),
        11 => l("full", x.to_bytes_full()),
        _ => ("count", vec![], x.write_to(&mut std::io::sink())),
    };
    (w, b, n, cuts)
}
const NAMES: [&str; WRITERS] = ["vec", "append", "to_vec", "encode", "strict", "encstrict", "memo", "encmemo",
    "hex", "enchex", "to_bytes", "full", "count"];

/// A value under test, without its type.
trait Value {
    fn write(&self, i: usize) -> Written;
    fn length(&self, i: usize) -> usize;
    fn toks(&self) -> Vec<i64>;
    fn pref(&self) -> Option<J>;
}
impl<T: Descr + Encode + Estimable> Value for T {
    fn write(&self, i: usize) -> Written {
        write1(self, i)
    }
    fn length(&self, i: usize) -> usize {
        match i {
            0 => self.enc_len(),
            1 => self.estimate(),
            _ => self.unknown(),
        }
    }
    fn toks(&self) -> Vec<i64> {
        tokens(self)
    }
    fn pref(&self) -> Option<J> {
        Descr::prefix(self)
    }
}
fn make<T: Descr + Encode + Estimable + 'static>(t: &mut Tok) -> Option<Box<dyn Value>> {
    T::get(t).map(|x| Box::new(x) as Box<dyn Value>)
}

fn enc(make: Make, known: i64, s: &J) -> J {
    let v: Vec<i64> = s.at("v").arr().iter().map(|x| x.as_i()).collect();
    let mut o = vec![
        ("op".into(), J::s("enc")),
        ("t".into(), J::s(s.str("t"))),
        ("frame".into(), J::I(s.int("frame"))),
        ("v".into(), J::ints(v.clone())),
    ];
    let mut tk = Tok { v: &v, i: 0 };
    let x = make(&mut tk);
    o.push(("built".into(), J::B(x.is_some())));
    let mut outs = vec![];
    if let Some(x) = x {
        beat();
        assert_eq!(tk.i, v.len(), "DRIVER: value too long");
        for i in 0..WRITERS {
            outs.push(match quiet(|| x.write(i)) {
                Ok((w, b, n, g)) => obj! {"w": w, "ok": true, "b": b, "n": cap(n), "g": J::ints(g)},
                Err(_) => obj! {"w": NAMES[i], "ok": false, "b": Vec::<u8>::new(), "n": 0i64},
            });
        }
        let num = |i| J::I(quiet(|| x.length(i)).map(cap).unwrap_or(-2));
        o.push(("len".into(), obj! {"enc": num(0), "est": num(1), "unk": num(2), "known": known}));
        o.push(("again".into(), J::ints(x.toks())));
        o.push(("pref".into(), match quiet(|| x.pref()) {
            Ok(Some(j)) => J::A(vec![j]),
            Ok(None) => J::A(vec![]),
            Err(_) => J::A(vec![obj! {"ok": false, "b": Vec::<u8>::new(), "e": E::panic().j()}]),
        }));
    }
    o.push(("outs".into(), J::A(outs)));
    J::O(o)
}
type Make = fn(&mut Tok) -> Option<Box<dyn Value>>;

fn rt(make: Make, d: &Dec, s: &J) -> J {
    let v: Vec<i64> = s.at("v").arr().iter().map(|x| x.as_i()).collect();
    let tail = s.bytes("tail");
    let x = make(&mut Tok { v: &v, i: 0 });
    let b = x.and_then(|x| quiet(|| x.write(10).1).ok());
    let p = match &b {
        Some(b) => {
            let mut buf = b.clone();
            buf.extend_from_slice(&tail);
            three(d, &buf, 0, -1, false)
        }
        None => J::A(vec![]),
    };
    obj! {"op": "rt", "t": s.str("t"), "frame": s.int("frame"), "v": J::ints(v), "tail": tail,
          "some": b.is_some(), "n": cap(b.map(|b| b.len()).unwrap_or(0)), "p": p}
}

/// A target that keeps the first bytes, the count, and whether the rest are
/// the expected filler.
struct Head(Vec<u8>, usize, bool);
impl Head {
    fn put(&mut self, b: &[u8]) -> usize {
        let room = 8usize.saturating_sub(self.0.len());
        self.0.extend(b.iter().take(room));
        self.2 &= b.iter().skip(room).all(|x| *x == 0);
        self.1 += b.len();
        b.len()
    }
}
impl Target for Head {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Head(vec![], 0, true)
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.put(&[b])
    }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize {
        self.put(&a)
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.put(b)
    }
}

/// A payload of `n` zero bytes behind a length prefix.
fn big(s: &J) -> J {
    let (w, n) = (s.int("w"), s.int("n") as usize);
    fn go<S: tedium::dynamic::LenPref>(n: usize) -> (J, J) {
        let d: Dynamic<S, Bytes> = Dynamic::new(Bytes::from(vec![0u8; n]));
        let r = quiet(|| {
            let mut h = Head::create();
            let k = d.write_to(&mut h);
            (h, k)
        });
        let a = match r {
            Ok((h, k)) => obj! {"ok": true, "head": h.0, "count": h.1 as i64, "zero": h.2, "n": k as i64},
            Err(_) => obj! {"ok": false, "head": Vec::<u8>::new(), "count": 0i64, "zero": true, "n": 0i64},
        };
        (a, d.prefix().unwrap())
    }
    beat();
    let (a, p) = match w {
        1 => go::<u8>(n),
        2 => go::<u16>(n),
        _ => go::<u30>(n),
    };
    obj! {"op": "big", "w": w, "n": n as i64, "r": a, "pref": p}
}

fn tagq<T: Tagged + Encode>(s: &J) -> J {
    let q: Vec<J> = s.at("x").arr().iter().map(|x| {
        let j = quiet(|| T::queries(x.as_i()));
        let j = j.unwrap_or(obj! {"valid": false, "name": "PANIC", "conv": 0i64, "ok": false, "b": Vec::<u8>::new(), "e": E::panic().j()});
        match j {
            J::O(mut v) => { v.push(("x".into(), x.clone())); J::O(v) }
            j => j,
        }
    }).collect();
    let vals: Vec<J> = s.at("vals").arr().iter().map(|v| {
        let v: Vec<i64> = v.arr().iter().map(|x| x.as_i()).collect();
        let x = T::get(&mut Tok { v: &v, i: 0 });
        obj! {"v": J::ints(v), "tag": x.map(|x| x.tagval()).unwrap_or(-1)}
    }).collect();
    obj! {"op": "tagq", "t": s.str("t"), "frame": 0i64, "tags": J::ints(T::tags()), "q": J::A(q), "vals": J::A(vals)}
}

// What only some types can do, by way of method resolution: the first trait
// applies where its bound holds, the second otherwise.
struct W<'a, T>(&'a T);
trait Hashed {
    fn hashed(&self) -> String;
}
impl<T: std::hash::Hash> Hashed for W<'_, T> {
    fn hashed(&self) -> String {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.0.hash(&mut h);
        format!("{:x}", h.finish())
    }
}
trait NotHashed {
    fn hashed(&self) -> String;
}
impl<T> NotHashed for &W<'_, T> {
    fn hashed(&self) -> String {
        "-".into()
    }
}
struct W2<'a, T>(&'a T, &'a T);
trait Ordered {
    fn ordered(&self) -> (i64, bool);
}
impl<T: Ord> Ordered for W2<'_, T> {
    fn ordered(&self) -> (i64, bool) {
        let most: &T = std::cmp::max(self.0, self.1);
        (self.0.cmp(self.1) as i64, std::ptr::eq(most, self.1))
    }
}
trait NotOrdered {
    fn ordered(&self) -> (i64, bool);
}
impl<T> NotOrdered for &W2<'_, T> {
    fn ordered(&self) -> (i64, bool) {
        (9, false)
    }
}
struct WC<'a, T>(&'a T);
trait Cloned_<T> {
    fn cloned(&self) -> Option<T>;
}
impl<T: Clone> Cloned_<T> for WC<'_, T> {
    fn cloned(&self) -> Option<T> {
        Some(self.0.clone())
    }
}
trait NotCloned<T> {
    fn cloned(&self) -> Option<T>;
}
impl<T> NotCloned<T> for &WC<'_, T> {
    fn cloned(&self) -> Option<T> {
        None
    }
}

fn rank(o: Option<std::cmp::Ordering>) -> i64 {
    o.map(|o| o as i64).unwrap_or(2)
}

/// A value given as tokens, or by bytes to be decoded.
fn given<T: Descr + Decode>(s: &J) -> Option<T> {
    match s.str("k") {
        "v" => {
            let v: Vec<i64> = s.at("v").arr().iter().map(|x| x.as_i()).collect();
            T::get(&mut Tok { v: &v, i: 0 })
        }
        _ => {
            let b = s.bytes("v");
            quiet(|| {
                let mut p: ByteParser = conv(b);
                T::parse(&mut p).ok()
            })
            .ok()
            .flatten()
        }
    }
}

/// Two values of a type, compared in every way.
#[allow(clippy::type_complexity)]
fn compare<T: Descr + Decode + PartialEq + PartialOrd>(
    s: &J, hash: fn(&T) -> String, ord: fn(&T, &T) -> (i64, bool), dup: fn(&T) -> Option<T>,
) -> J {
    beat();
    let (a, b) = (given::<T>(s.at("a")), given::<T>(s.at("b")));
    let some = a.is_some() && b.is_some();
    let none = obj! {"panic": true, "eq": false, "ne": false, "pc": 7i64, "rev": 7i64, "lt": false, "le": false, "gt": false,
        "ge": false, "cmp": 9i64, "max": Vec::<i64>::new(), "ha": "-", "ha2": "-", "hb": "-", "va": Vec::<i64>::new(),
        "vb": Vec::<i64>::new(), "cl": 9i64, "vcl": Vec::<i64>::new()};
    let c = match (&a, &b) {
        (Some(a), Some(b)) => quiet(|| {
            let (cmp, second) = ord(a, b);
            let copy = dup(a);
            let again = hash(copy.as_ref().unwrap_or(a));
            obj! {"panic": false, "eq": a == b, "ne": a != b, "pc": rank(a.partial_cmp(b)), "rev": rank(b.partial_cmp(a)),
                  "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "cmp": cmp,
                  "max": J::ints(tokens(if second { b } else { a })),
                  "ha": hash(a), "ha2": again, "hb": hash(b), "va": J::ints(tokens(a)), "vb": J::ints(tokens(b)),
                  "cl": copy.as_ref().map(|c| rank(c.partial_cmp(a))).unwrap_or(9),
                  "vcl": J::ints(copy.as_ref().map(tokens).unwrap_or_default())}
        })
        .unwrap_or(none),
        _ => none,
    };
    obj! {"op": "cmp", "t": s.str("t"), "frame": 0i64, "a": s.at("a").clone(), "b": s.at("b").clone(), "some": some, "c": c}
}

type Registry = BTreeMap<&'static str, Ops>;

struct Ops {
    sch: fn() -> J,
    known: i64,
    fknown: i64,
    dec: [Dec; 2],
    make: [Make; 2],
}
fn ops<T: Descr + Encode + Decode + Estimable + 'static>() -> Ops
where
    Dynamic<u16, T>: Descr + Encode + Decode + 'static,
{
    let k = |k: Option<usize>| k.map(cap).unwrap_or(-1);
    Ops {
        sch: T::def,
        known: k(T::KNOWN),
        fknown: k(<Dynamic<u16, T>>::KNOWN),
        dec: [decoders::<T>(), decoders::<Dynamic<u16, T>>()],
        make: [make::<T>, make::<Dynamic<u16, T>>],
    }
}

fn main() {
    let mut reg: Registry = BTreeMap::new();
    let mut cm: BTreeMap<&'static str, fn(&J) -> J> = BTreeMap::new();
    macro_rules! add {
        ($($n:literal => $t:ty),* $(,)?) => { $(
            reg.insert($n, ops::<$t>());
            cm.insert($n, |s: &J| compare::<$t>(s, |x| (&W(x)).hashed(), |x, y| (&W2(x, y)).ordered(), |x| (&WC(x)).cloned()));
        )* };
    }
    registry!(add);
    registry_relaxed!(add);
    let mut tq: BTreeMap<&'static str, fn(&J) -> J> = BTreeMap::new();
    macro_rules! tagged {
        ($($t:ident),*) => { $( tq.insert(stringify!($t), tagq::<$t>); )* };
    }
    tagged!(Sparse, Single8, Wide, Huge, Lots, Shape, WideU, OneWay, KeyHash, Contract, List, Tree, Quad);
    vh::run(move |s| {
        let ty = s.str("t");
        match s.str("op") {
            "schemas" => {
                return J::A(reg.iter().map(|(n, o)| obj! {"n": *n, "s": (o.sch)(), "known": o.known}).collect())
            }
            "big" => return big(s),
            "mix" => return mixed(&reg, s),
            "cmp" => return cm[ty](s),
            "tagq" => return tq[ty](s),
            "dec" | "enc" | "rt" | "pump" => (),
            o => panic!("DRIVER: op {o}"),
        };
        let o = reg.get(ty).unwrap_or_else(|| panic!("DRIVER: type {ty}"));
        let i = (s.int("frame") != 0) as usize;
        match s.str("op") {
            "dec" => dec(&o.dec[i], s),
            "pump" => pump(&o.dec[i], s),
            "enc" => enc(o.make[i], [o.known, o.fknown][i], s),
            _ => rt(o.make[i], &o.dec[i], s),
        }
    });
}
