//! Interprets histories of parser operations and records what happened.
use std::collections::HashSet;
use tedium::parse::error::{ParseError, ParseResult, TagType, TagValidator};
use tedium::parse::{Parser, ParserExt, TryIntoParser};
use tedium::{u30, ByteParser, Decode, MemoParser, SliceParser};
use vh::err::{self, E};
use vh::{beat, cap, expand, groups, left, quiet, scale, size, Tap, J};

struct Out {
    ok: bool,
    b: Vec<u8>,
    n: i64,
    e: E,
}

fn bytes(r: ParseResult<Vec<u8>>) -> Out {
    match r {
        Ok(b) => Out { ok: true, n: cap(b.len()), b, e: E::none() },
        Err(e) => fail(&e),
    }
}
fn num(r: ParseResult<usize>) -> Out {
    match r {
        Ok(n) => Out { ok: true, n: cap(n), b: vec![], e: E::none() },
        Err(e) => fail(&e),
    }
}
fn unit(r: ParseResult<()>) -> Out {
    num(r.map(|_| 0))
}
fn fail(e: &ParseError) -> Out {
    // the message must be available for every error
    let _ = format!("{e} {e:?}");
    Out { ok: false, b: vec![], n: 0, e: err::parse(e) }
}

/// the low `w` bytes of a number, big-endian, without the library's help
fn be(v: i128, w: usize) -> Vec<u8> {
    (0..w).rev().map(|i| (v >> (8 * i)) as u8).collect()
}

struct Mark;

fn tagword<P: Parser, U>(p: &mut P, cont: &str, tags: Vec<U>, w: usize) -> Out
where
    U: TagType + Decode + Copy + Into<u32> + std::hash::Hash + Eq,
    [U; 0]: TagValidator<U>,
    [U; 1]: TagValidator<U>,
    [U; 2]: TagValidator<U>,
    [U; 3]: TagValidator<U>,
    [U; 9]: TagValidator<U>,
    for<'a> &'a [U; 0]: TagValidator<U>,
    for<'a> &'a [U; 2]: TagValidator<U>,
    for<'a> &'a [U; 9]: TagValidator<U>,
    for<'a> &'a [U]: TagValidator<U>,
    for<'a> &'a Vec<U>: TagValidator<U>,
    Vec<U>: TagValidator<U>,
    HashSet<U>: TagValidator<U>,
{
    let r: ParseResult<U> = match (cont, tags.len()) {
        ("arr", 0) => p.take_tagword::<Mark, U, [U; 0]>([]),
        ("arr", 1) => p.take_tagword::<Mark, U, [U; 1]>([tags[0]]),
        ("arr", 2) => p.take_tagword::<Mark, U, [U; 2]>([tags[0], tags[1]]),
        ("arr", 3) => p.take_tagword::<Mark, U, [U; 3]>([tags[0], tags[1], tags[2]]),
        ("arr", 9) => p.take_tagword::<Mark, U, [U; 9]>(tags[..].try_into().ok().unwrap()),
        ("refarr", 0) => p.take_tagword::<Mark, U, &[U; 0]>(&[]),
        ("refarr", 9) => p.take_tagword::<Mark, U, &[U; 9]>(tags[..].try_into().ok().unwrap()),
        ("refarr", 2) => p.take_tagword::<Mark, U, &[U; 2]>(&[tags[0], tags[1]]),
        ("slice", _) | ("refarr", _) => p.take_tagword::<Mark, U, &[U]>(&tags[..]),
        ("refvec", _) => p.take_tagword::<Mark, U, &Vec<U>>(&tags),
        ("set", _) => p.take_tagword::<Mark, U, HashSet<U>>(tags.into_iter().collect()),
        _ => p.take_tagword::<Mark, U, Vec<U>>(tags),
    };
    match r {
        Ok(u) => Out { ok: true, n: 0, b: be(u.into() as i128, w), e: E::none() },
        Err(e) => {
            let named = format!("{e}").contains(std::any::type_name::<Mark>());
            let mut o = fail(&e);
            if o.e.k == "tag" {
                o.e.z = named as i64;
            }
            o
        }
    }
}

macro_rules! by_n {
    ($n:expr, $k:ident => $e:expr; $($v:literal)*) => {
        match $n { $($v => { const $k: usize = $v; $e })* n => panic!("DRIVER: width {n}") }
    };
}

fn kv<P: ParserExt, const M: usize>(p: &mut P, key: &[u8], n: usize) -> Out {
    let mut k = [0u8; M];
    k.copy_from_slice(key);
    let r: ParseResult<Option<Vec<u8>>> = by_n!(n, N =>
        p.fast_kv_search::<[u8; M], Vec<u8>, _, M, N>(&k, |v: [u8; N]| v.to_vec()); 0 1 2 3 4 20);
    match r {
        Ok(Some(v)) => Out { ok: true, n: 1, b: v, e: E::none() },
        Ok(None) => Out { ok: true, n: 0, b: vec![], e: E::none() },
        Err(e) => fail(&e),
    }
}

fn step<P: ParserExt + Iterator<Item = u8>>(p: &mut P, s: &J, dump: &dyn Fn(&P)) -> Out {
    let n = if s.int("n") < 0 { size(s.int("n")) } else { s.int("n") as usize * scale() };
    match s.str("op") {
        "take" => match s.str("v") {
            "byte" => bytes(p.consume_byte().map(|b| vec![b])),
            "consume" => bytes(p.consume(n).map(|b| b.to_vec())),
            "dyn" => bytes(p.take_dynamic(n)),
            "arr" => by_n!(n, N => bytes(p.consume_arr::<N>().map(|a| a.to_vec())); 0 1 2 3 4 5 8 16 20 32 33 64),
            "fix" => by_n!(n, N => bytes(p.take_fixed::<N>().map(|a| a.to_vec())); 0 1 2 3 4 5 8 16 20 32 33 64),
            "u8" => bytes(p.take_u8().map(|x| be(x as i128, 1))),
            "i8" => bytes(p.take_i8().map(|x| be(x as i128, 1))),
            "u16" => bytes(p.take_u16().map(|x| be(x as i128, 2))),
            "i16" => bytes(p.take_i16().map(|x| be(x as i128, 2))),
            "u32" => bytes(p.take_u32().map(|x| be(x as i128, 4))),
            "i32" => bytes(p.take_i32().map(|x| be(x as i128, 4))),
            "u64" => bytes(p.take_u64().map(|x| be(x as i128, 8))),
            "i64" => bytes(p.take_i64().map(|x| be(x as i128, 8))),
            "f64" => bytes(p.take_f64().map(|x| be(x.to_bits() as i128, 8))),
            v => panic!("DRIVER: take {v}"),
        },
        "bool" => match p.take_bool() {
            Ok(b) => Out { ok: true, n: b as i64, b: vec![], e: E::none() },
            Err(e) => fail(&e),
        },
        "tag" => {
            let tags: Vec<u32> = s.at("s").arr().iter().map(|t| {
                t.as_bytes().iter().fold(0u32, |a, b| a << 8 | *b as u32)
            }).collect();
            match n {
                1 => tagword::<P, u8>(p, s.str("v"), tags.iter().map(|x| *x as u8).collect(), 1),
                2 => tagword::<P, u16>(p, s.str("v"), tags.iter().map(|x| *x as u16).collect(), 2),
                4 => tagword::<P, u32>(p, s.str("v"), tags, 4),
                _ => panic!("DRIVER: tag width"),
            }
        }
        "selfterm" => {
            let k = s.int("n");
            bytes(p.take_self_terminating(move |b| match k {
                0 => b < 128,
                1 => b == 0,
                2 => b % 2 == 1,
                _ => false,
            }))
        }
        "next" => match p.next() {
            Some(b) => Out { ok: true, n: 1, b: vec![b], e: E::none() },
            None => Out { ok: false, n: 0, b: vec![], e: E::none() },
        },
        // the adaptors every iterator has
        "nth" => match Iterator::nth(p, n) {
            Some(b) => Out { ok: true, n: 1, b: vec![b], e: E::none() },
            None => Out { ok: false, n: 0, b: vec![], e: E::none() },
        },
        "last" => match Iterator::last(Iterator::by_ref(p)) {
            Some(b) => Out { ok: true, n: 1, b: vec![b], e: E::none() },
            None => Out { ok: false, n: 0, b: vec![], e: E::none() },
        },
        "gather" => {
            let b: Vec<u8> = if n == usize::MAX {
                Iterator::by_ref(p).collect()
            } else {
                Iterator::take(Iterator::by_ref(p), n).collect()
            };
            Out { ok: true, n: cap(b.len()), b, e: E::none() }
        }
        "count" => num(Ok(Iterator::count(Iterator::by_ref(p)))),
        "hint" => {
            let (lo, hi) = Iterator::size_hint(p);
            Out { ok: true, n: cap(lo), b: hi.map_or(vec![], |x| be(cap(x) as i128, 4)), e: E::none() }
        }
        "skip" => num(p.skip(n)),
        "skipx" => unit(p.skip_exactly(n)),
        "open" => unit(p.set_fit(n)),
        "test" => match p.test_target() {
            Ok(b) => Out { ok: true, n: b as i64, b: vec![], e: E::none() },
            Err(e) => fail(&e),
        },
        "close" => unit(p.enforce_target()),
        "prefix" => num(match n {
            1 => p.process_prefix::<u8>(),
            2 => p.process_prefix::<u16>(),
            _ => p.process_prefix::<u30>(),
        }),
        "skipdyn" => num(match n {
            1 => p.skip_dynamic::<u8>(),
            2 => p.skip_dynamic::<u16>(),
            _ => p.skip_dynamic::<u30>(),
        }),
        "kv" => {
            let m = s.int("m") as usize;
            let key = s.bytes("k");
            by_n!(m, M => kv::<P, M>(p, &key, n); 0 1 2 3 4 8)
        }
        "dump" => {
            dump(p);
            unit(Ok(()))
        }
        "info" => unit(Ok(())),
        o => panic!("DRIVER: op {o}"),
    }
}

fn session<P: ParserExt + Iterator<Item = u8>>(
    make: Result<P, String>,
    s: &J,
    buf: &[u8],
    tap: &mut Tap,
    dump: &dyn Fn(&P),
) -> J {
    let mut p = make.unwrap_or_else(|e| panic!("DRIVER: {e}"));
    let mut steps = Vec::new();
    let mut dead = false;
    for op in s.at("steps").arr() {
        beat();
        let r = quiet(|| step(&mut p, op, dump));
        let panicked = r.is_err();
        let mut o = r.unwrap_or_else(|_| Out { ok: false, b: vec![], n: 0, e: E::panic() });
        if scale() > 1 {
            o.e.m = vec![];
            let _ = tap.take();
        }
        let prints: Vec<J> = tap.take().lines().filter(|l| l.starts_with('[')).map(groups).collect();
        let post = quiet(|| (cap(p.offset()), cap(p.remainder()), cap(p.view_len())));
        let (off, rem, vl) = post.unwrap_or((-1, -1, -1));
        steps.push(vh::obj! {
            "op": op.str("op"), "v": op.str("v"), "n": if op.int("n") < 0 { 1_000_000_000 } else { op.int("n").min(1_000_000_000) }, "m": op.int("m"),
            "k": op.bytes("k"), "s": op.get("s").cloned().unwrap_or(J::A(vec![])),
            "ok": o.ok, "b": o.b, "r": o.n, "e": o.e.j(),
            "off": off, "rem": rem, "vl": vl, "tr": prints
        });
        if panicked {
            dead = true;
            break;
        }
    }
    let l = if dead || scale() > 1 {
        vh::obj! {"k": "none", "segs": Vec::<J>::new(), "len": 0i64, "empty": true}
    } else {
        beat();
        left(quiet(|| p.cleanup().map_err(|e| format!("{e}"))))
    };
    let _ = tap.take();
    vh::obj! {"p": s.str("p"), "scale": s.get("scale").map_or(1, |_| s.int("scale")), "buf": J::ints(buf.iter().map(|x| *x as i64)), "steps": steps, "left": l}
}

fn main() {
    let mut tap = Tap::new();
    vh::run(move |s| {
        let buf = s.bytes("buf");
        let k = s.get("scale").map_or(1, |_| s.int("scale")) as usize;
        vh::SCALE.store(k, std::sync::atomic::Ordering::Relaxed);
        let all = expand(buf.clone());
        match s.str("p") {
            "byte" => session::<ByteParser>(conv(all), s, &buf, &mut tap, &|_| ()),
            "memo" => session::<MemoParser>(conv(all.as_slice()), s, &buf, &mut tap, &|p| p.dump_state()),
            "slice" => session::<SliceParser>(conv(all.as_slice()), s, &buf, &mut tap, &|_| ()),
            x => panic!("DRIVER: parser {x}"),
        }
    });
}

fn conv<P: Parser, U: TryIntoParser<P>>(u: U) -> Result<P, String> {
    u.try_into_parser().map_err(|_| "conversion".to_string())
}
