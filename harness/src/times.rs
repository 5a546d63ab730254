//! Calculations with times: `kharness time SCRIPTS TRACE`. A script starts with
//! {"ev":"reset","k":"s"|"b","v":[seconds,tesimals]}. Numbers are lists of digits to the base 10^4.
use knaster_graph::{Beats, Seconds};
use serde_json::{Value, json};
use std::cmp::Ordering;

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0u64, |a, d| a * 10000 + d.as_u64().unwrap())
}
fn digits(mut x: u64) -> Value {
    let mut d = vec![];
    while x > 0 {
        d.push(x % 10000);
        x /= 10000;
    }
    json!(d)
}
fn f(v: &Value) -> f64 {
    let e = v[1].as_i64().unwrap() as i32;
    n(&v[0]) as f64 * (2f64).powi(e)
}
/// m * 2^e, exactly
fn float(x: f64) -> Value {
    if !x.is_finite() || x < 0. {
        return json!([[9999, 9999, 9999, 9999, 9999], 900]);
    }
    let b = x.to_bits();
    let (mut m, mut e) = (b & ((1 << 52) - 1), ((b >> 52) & 2047) as i64);
    if e == 0 {
        e = 1
    } else {
        m |= 1 << 52
    }
    e -= 1075;
    if m == 0 {
        return json!([[], 0]);
    }
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    json!([digits(m), e])
}
fn ord(o: Ordering) -> i64 {
    o as i8 as i64
}
fn comparisons<T: Ord + PartialOrd>(a: T, b: T) -> Value {
    json!([ord(a.cmp(&b)), a.partial_cmp(&b).map_or(7, ord), (a < b) as i64, (a <= b) as i64, (a == b) as i64])
}

fn sec(v: &Value) -> Seconds {
    Seconds::new(n(&v[0]) as u32, n(&v[1]) as u32)
}
fn parts(x: impl std::fmt::Debug) -> Value {
    // the fields are private: what is displayed tells them apart
    let d = format!("{x:?}");
    let mut it = d.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap());
    json!([digits(it.next().unwrap()), digits(it.next().unwrap())])
}
fn beat(v: &Value) -> Beats {
    Beats::new(n(&v[0]) as u32, n(&v[1]) as u32)
}

fn seconds(a: &mut Seconds, e: &Value, o: &mut Value) -> bool {
    let w = || sec(&e["w"]);
    let how = s(&e["how"]);
    match s(&e["ev"]) {
        "add" if how == "assign" => *a += w(),
        "add" => *a = *a + w(),
        "csub" => match a.checked_sub(w()) {
            Some(x) => *a = x,
            None => {
                o["r"] = json!([]);
                return true;
            }
        },
        "ssub" => *a = a.saturating_sub(w()),
        "mul" if how == "assign" => *a *= w(),
        "mul" => *a = *a * w(),
        "mulf" => {
            let x = f(&e["x"]);
            match how {
                "f64" => *a = *a * x,
                "f64l" => *a = x * *a,
                "f64a" => *a *= x,
                "f32" => *a = *a * x as f32,
                "f32l" => *a = x as f32 * *a,
                _ => *a *= x as f32,
            }
        }
        "set" => *a = w(),
        "fromsamples" => *a = Seconds::from_samples(n(&e["n"]), n(&e["rate"])),
        "fromu64" => *a = Seconds::from_subsample_tesimals_u64(n(&e["n"])),
        "fromf" => {
            let x = f(&e["x"]);
            *a = if how == "loss" { Seconds::from_secs_f64_return_precision_loss(x).0 } else { Seconds::from_secs_f64(x) }
        }
        "fromdur" => *a = std::time::Duration::new(n(&e["n"]), n(&e["nanos"]) as u32).into(),
        "tosamples" => {
            o["y"] = digits(a.to_samples(n(&e["rate"])));
            return true;
        }
        "tosamplesf" => {
            o["y"] = float(a.to_samples_f64(n(&e["rate"]) as f64));
            return true;
        }
        "tou64" => {
            o["y"] = digits(a.to_subsample_tesimals_u64());
            return true;
        }
        "tof" => {
            o["y"] = float(a.to_secs_f64());
            return true;
        }
        "cmp" => {
            o["y"] = comparisons(*a, w());
            return true;
        }
        _ => return false,
    }
    o["r"] = parts(*a);
    true
}

fn fraction(f: u64, b: u32, x: u32) -> Beats {
    macro_rules! of {
        ($($n:literal)*) => { match f { $($n => Beats::from_fractional_beats::<$n>(b, x),)* _ => panic!("no such fraction") } };
    }
    of!(1 2 3 4 5 6 7 8 9 10 12 14 15 16 18 20 24 32 64 128 256 512 1920)
}

fn beats(a: &mut Beats, e: &Value, o: &mut Value) -> bool {
    let w = || beat(&e["w"]);
    let how = s(&e["how"]);
    match s(&e["ev"]) {
        "add" if how == "assign" => *a += w(),
        "add" => *a = *a + w(),
        "csub" => match a.checked_sub(w()) {
            Some(x) => *a = x,
            None => {
                o["r"] = json!([]);
                return true;
            }
        },
        "ssub" => *a = a.saturating_sub(w()),
        "sum" => *a = e["ws"].as_array().unwrap().iter().map(beat).sum(),
        "mul" if how == "assign" => *a *= w(),
        "mul" => *a = *a * w(),
        "mulf" => {
            let x = f(&e["x"]);
            match how {
                "f64" | "f64l" => *a = *a * x,
                "f64a" => *a *= x,
                "f32" | "f32l" => *a = *a * x as f32,
                _ => *a *= x as f32,
            }
        }
        "muln" => {
            let x = n(&e["n"]);
            *a = match how {
                "u8" => *a * x as u8,
                "u16" => *a * x as u16,
                "u32" => *a * x as u32,
                _ => *a * x,
            }
        }
        "set" => *a = if how == "whole" { Beats::from_beats(n(&e["w"][0]) as u32) } else { w() },
        "fromf" => {
            let x = f(&e["x"]);
            *a = match how {
                "f64" => Beats::from_beats_f64(x),
                "f64l" => x.into(),
                "f32" => Beats::from_beats_f32(x as f32),
                _ => (x as f32).into(),
            }
        }
        "fromfrac" => *a = fraction(n(&e["f"]), n(&e["n"]) as u32, n(&e["fr"]) as u32),
        "tof" => {
            o["y"] = float(if how == "f32" { a.as_beats_f32() as f64 } else { a.as_beats_f64() });
            return true;
        }
        "cmp" => {
            o["y"] = comparisons(*a, w());
            return true;
        }
        _ => return false,
    }
    o["r"] = parts(*a);
    true
}

pub fn run_script(evs: &[Value], mut emit: impl FnMut(Value)) {
    let mut a = sec(&evs[0]["v"]);
    let mut b = beat(&evs[0]["v"]);
    let secs = s(&evs[0]["k"]) == "s";
    for e in evs {
        let mut o = e.clone();
        if s(&e["ev"]) == "reset" {
            emit(o);
            continue;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if secs { seconds(&mut a, e, &mut o) } else { beats(&mut b, e, &mut o) }));
        match r {
            Ok(true) => emit(o),
            Ok(false) => (),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                emit(json!({"ev": "panic", "msg": m, "of": e}));
                return;
            }
        }
    }
}
