//! The statically typed handles: the same operations as those of `exec`, made with `SH` (and with `SH`
//! and `DH` mixed) instead of `DH` handles. Static handles live as long as the edit that pushed the node.
use crate::exec::*;
use crate::tu::TU;
use knaster_graph::graph::NodeId;
use knaster_graph::graph_edit::*;
use knaster_graph::typenum::*;
use knaster_graph::wrappers_core::WrArParams;
use knaster_graph::*;
use serde_json::{Value, json};

pub type H<'a, 'b, U> = SH<'a, 'b, f32, Handle3<U>>;
pub type C<'a, 'b, O> = SH<'a, 'b, f32, ChannelsHandle<O>>;
#[derive(Clone, Copy)]
pub enum St<'a, 'b> {
    N01(H<'a, 'b, TU<U0, U1>>),
    N02(H<'a, 'b, TU<U0, U2>>),
    N10(H<'a, 'b, TU<U1, U0>>),
    N11(H<'a, 'b, TU<U1, U1>>),
    N12(H<'a, 'b, TU<U1, U2>>),
    N20(H<'a, 'b, TU<U2, U0>>),
    N21(H<'a, 'b, TU<U2, U1>>),
    N22(H<'a, 'b, TU<U2, U2>>),
    A01(H<'a, 'b, WrArParams<TU<U0, U1>>>),
    A11(H<'a, 'b, WrArParams<TU<U1, U1>>>),
    C1(C<'a, 'b, U1>),
}
macro_rules! node {
    ($st:expr, |$h:ident| $body:expr, $else:expr) => {
        match $st {
            St::N01($h) => $body,
            St::N02($h) => $body,
            St::N10($h) => $body,
            St::N11($h) => $body,
            St::N12($h) => $body,
            St::N20($h) => $body,
            St::N21($h) => $body,
            St::N22($h) => $body,
            St::A01($h) => $body,
            St::A11($h) => $body,
            St::C1(_) => $else,
        }
    };
}
/// Nodes of the kinds above are pushed here, and their handle is kept
pub fn push<'a, 'b>(ge: &'a GraphEdit<'b, f32>, v: &Value) -> Option<(St<'a, 'b>, NodeId)> {
    let (id, b, tk) = (i(v, "id"), i(v, "b"), i(v, "tk"));
    macro_rules! p {
        ($V:ident, $I:ty, $O:ty) => {{
            let h = ge.push(TU::<$I, $O>::new(id, b, tk));
            Some((St::$V(h), h.id()))
        }};
    }
    macro_rules! pa {
        ($V:ident, $I:ty, $O:ty) => {{
            let h = ge.push(WrArParams::new(TU::<$I, $O>::new(id, b, tk)));
            Some((St::$V(h), h.id()))
        }};
    }
    match (s(v, "kd"), i(v, "i"), i(v, "n")) {
        ("plain", 0, 1) => p!(N01, U0, U1),
        ("plain", 0, 2) => p!(N02, U0, U2),
        ("plain", 1, 0) => p!(N10, U1, U0),
        ("plain", 1, 1) => p!(N11, U1, U1),
        ("plain", 1, 2) => p!(N12, U1, U2),
        ("plain", 2, 0) => p!(N20, U2, U0),
        ("plain", 2, 1) => p!(N21, U2, U1),
        ("plain", 2, 2) => p!(N22, U2, U2),
        ("ar", 0, 1) => pa!(A01, U0, U1),
        ("ar", 1, 1) => pa!(A11, U1, U1),
        _ => None,
    }
}
pub fn params(st: &St, names: bool) -> Vec<Option<Parameter>> {
    node!(
        *st,
        |h| (0..6).map(|p| if names { h.try_param(["a", "b", "t", "d", "done_action", "nosuch"][p]) } else { h.try_param(p) }).collect(),
        vec![]
    )
}
fn one<'a, 'b>(ge: &'a GraphEdit<'b, f32>, tmp: &Tmp<'a, 'b>, p: (i64, u16)) -> Option<C<'a, 'b, U1>> {
    if p.0 == 0 {
        return ge.from_inputs(p.1).ok();
    }
    match *tmp.st.get(&p.0)? {
        St::C1(h) => (p.1 == 0).then_some(h),
        St::N10(_) | St::N20(_) => None,
        st => node!(st, |h| Some(h.out(p.1)), None),
    }
}
fn two<'a, 'b>(ge: &'a GraphEdit<'b, f32>, tmp: &Tmp<'a, 'b>, l: &[(i64, u16)]) -> Option<C<'a, 'b, U2>> {
    if l[0].0 != l[1].0 {
        return None;
    }
    if l[0].0 == 0 {
        return ge.from_inputs([l[0].1, l[1].1]).ok();
    }
    match *tmp.st.get(&l[0].0)? {
        St::C1(_) | St::N10(_) | St::N20(_) => None,
        st => node!(st, |h| Some(h.out([l[0].1, l[1].1])), None),
    }
}
// Runs the body with a static handle of one, or two, output channels which stands for the list of sources
macro_rules! with1 {
    ($ge:expr, $tmp:expr, $l:expr, |$h:ident| $body:expr) => {
        match $tmp.st.get(&$l[0].0).copied() {
            Some(St::N01($h)) => Some($body),
            Some(St::N11($h)) => Some($body),
            Some(St::N21($h)) => Some($body),
            _ => match one($ge, $tmp, $l[0]) {
                Some($h) => Some($body),
                None => None,
            },
        }
    };
}
macro_rules! with2 {
    ($ge:expr, $tmp:expr, $l:expr, |$h:ident| $body:expr) => {{
        let whole = $l[0].0 == $l[1].0 && $l[0].1 == 0 && $l[1].1 == 1;
        match $tmp.st.get(&$l[0].0).copied() {
            Some(St::N02($h)) if whole => Some($body),
            Some(St::N12($h)) if whole => Some($body),
            Some(St::N22($h)) if whole => Some($body),
            _ => match two($ge, $tmp, $l) {
                Some($h) => Some($body),
                None => match (one($ge, $tmp, $l[0]), one($ge, $tmp, $l[1])) {
                    (Some(x), Some(y)) => {
                        let $h = x | y;
                        Some($body)
                    }
                    _ => None,
                },
            },
        }
    }};
}
macro_rules! with {
    ($ge:expr, $tmp:expr, $l:expr, |$h:ident| $body:expr) => {
        match $l.len() {
            1 => with1!($ge, $tmp, $l, |$h| $body),
            2 => with2!($ge, $tmp, $l, |$h| $body),
            _ => None,
        }
    };
}
fn join<'a, 'b, S0: Static, S1: Static>(l: SH<'a, 'b, f32, S0>, k: SH<'a, 'b, f32, S1>, m: &str, via: &str)
where
    S1::Inputs: Same<S0::Outputs>,
{
    match (m, via) {
        ("to", "shr") => {
            let _ = l >> k;
        }
        ("to", _) => {
            l.to(k);
        }
        ("rep", _) => {
            l.to_replace(k);
        }
        ("fb", _) => {
            l.to_feedback(k);
        }
        _ => {
            l.to_feedback_replace(k);
        }
    }
}
/// What follows a node in a chain of connections is the handle which the connection returned
fn zip<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, v: &Value) -> Option<()> {
    let l = pairs(v, "l");
    let ks: Vec<i64> = arr(v, "sinks").iter().map(|k| k.as_i64().unwrap()).collect();
    let (m, via, sy) = (s(v, "m"), s(v, "via"), i(v, "sy"));
    if via == "try" || (m == "rep" && !l.iter().all(|p| p.0 == 0 || tmp.leaf.contains(&p.0))) {
        return None;
    }
    let k: Vec<St> = ks.iter().map(|k| tmp.st.get(k).copied()).collect::<Option<_>>().unwrap_or_default();
    if m == "to" && sy == 2 && ks.len() == 1 {
        // a static source and a dynamic sink
        let k = ge.handle(env.nid(ks[0]))?;
        return with!(ge, tmp, &l, |h| {
            let _ = h >> k;
        });
    }
    if m == "to" && sy == 3 && k.len() == 1 {
        // a dynamic source and a static sink
        let h = srcs(env, ge, tmp, &l).ok()?;
        return node!(
            k[0],
            |k| {
                let _ = h >> k;
                Some(())
            },
            None
        );
    }
    match (l.len(), k.as_slice()) {
        (1, [St::N10(k)]) => with1!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (1, [St::N11(k)]) => with1!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (1, [St::N12(k)]) => with1!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (1, [St::A11(k)]) => with1!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (2, [St::N20(k)]) => with2!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (2, [St::N21(k)]) => with2!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (2, [St::N22(k)]) => with2!(ge, tmp, &l, |h| join(h, *k, m, via)),
        (2, [St::N11(k), St::N11(k2)]) => with2!(ge, tmp, &l, |h| join(h, k.stack(*k2), m, via)),
        (2, [St::N11(k), St::N12(k2)]) => with2!(ge, tmp, &l, |h| join(h, *k | *k2, m, via)),
        (2, [St::N12(k), St::N10(k2)]) => with2!(ge, tmp, &l, |h| join(h, *k | *k2, m, via)),
        _ => None,
    }
}
fn keep<'a, 'b, O: Size>(tmp: &mut Tmp<'a, 'b>, v: &Value, h: C<'a, 'b, O>, leaf: bool) {
    for (n, id) in arr(v, "ids").iter().enumerate() {
        let id = id.as_i64().unwrap();
        let c = h.out(n as u16);
        tmp.ch.insert(id, c.dynamic());
        tmp.st.insert(id, St::C1(c));
        if leaf {
            tmp.leaf.insert(id);
        }
    }
}
pub fn keep_dyn<'a, 'b>(tmp: &mut Tmp<'a, 'b>, v: &Value, h: Chans<'a, 'b>) {
    for (n, id) in arr(v, "ids").iter().enumerate() {
        tmp.ch.insert(id.as_i64().unwrap(), h.out(n as u16));
    }
}
macro_rules! op {
    ($v:expr, $l:expr, $r:expr) => {
        match s($v, "op") {
            "add" => $l + $r,
            "sub" => $l - $r,
            "mul" => $l * $r,
            _ => $l / $r,
        }
    };
}
fn math<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, v: &Value) -> Option<()> {
    let (l, r) = (pairs(v, "l"), pairs(v, "r"));
    let pow = s(v, "op") == "pow";
    let leaf = l.iter().chain(r.iter()).all(|p| p.0 == 0 || tmp.leaf.contains(&p.0));
    match i(v, "sy") {
        2 if !pow => {
            let y = srcs(env, ge, tmp, &r).ok()?;
            let h = with!(ge, tmp, &l, |x| op!(v, x, y))?;
            keep_dyn(tmp, v, h);
            Some(())
        }
        3 if !pow => {
            let x = srcs(env, ge, tmp, &l).ok()?;
            let h = with!(ge, tmp, &r, |y| op!(v, x, y))?;
            keep_dyn(tmp, v, h);
            Some(())
        }
        _ if l.len() == 1 => {
            let h = with1!(ge, tmp, &l, |x| with1!(ge, tmp, &r, |y| if pow { x.pow(y) } else { op!(v, x, y) }))??;
            keep(tmp, v, h, leaf);
            Some(())
        }
        _ if l.len() == 2 => {
            let h = with2!(ge, tmp, &l, |x| with2!(ge, tmp, &r, |y| if pow { x.pow(y).dynamic() } else { op!(v, x, y).dynamic() }))??;
            keep_dyn(tmp, v, h);
            Some(())
        }
        _ => None,
    }
}
fn mathc<'a, 'b>(ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, v: &Value) -> Option<()> {
    let l = pairs(v, "l");
    let k = i(v, "k");
    let leaf = l.iter().all(|p| p.0 == 0 || tmp.leaf.contains(&p.0));
    macro_rules! opc {
        ($h:expr, $k:expr) => {{
            let k = $k;
            if i(v, "rev") == 0 { op!(v, $h, k) } else { op!(v, k, $h) }
        }};
    }
    macro_rules! ty {
        ($h:expr) => {
            match s(v, "ty") {
                "f64" => opc!($h, k as f64),
                "usize" => opc!($h, k as usize),
                "i32" => opc!($h, k as i32),
                _ => opc!($h, k as f32),
            }
        };
    }
    match l.len() {
        1 => {
            let h = with1!(ge, tmp, &l, |h| ty!(h))?;
            keep(tmp, v, h, leaf);
            Some(())
        }
        2 => {
            let h = with2!(ge, tmp, &l, |h| ty!(h).dynamic())?;
            keep_dyn(tmp, v, h);
            Some(())
        }
        _ => None,
    }
}
fn outs<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, v: &Value) -> Option<()> {
    let l = pairs(v, "l");
    let ch: Vec<u16> = arr(v, "ch").iter().map(|c| c.as_i64().unwrap() as u16).collect();
    let rep = s(v, "m") == "rep";
    // stacks of static and dynamic handles are dynamic
    if l.len() == 2 && ch.is_empty() && !rep && i(v, "sy") >= 2 {
        let x = one(ge, tmp, l[i(v, "sy") as usize - 2])?;
        let y = srcs(env, ge, tmp, &l[3 - i(v, "sy") as usize..][..1]).ok()?;
        if i(v, "sy") == 2 { (x | y).to_graph_out() } else { (y | x).to_graph_out() }
        return Some(());
    }
    match (l.len(), ch.as_slice()) {
        (_, []) => with!(ge, tmp, &l, |h| if rep { h.to_graph_out_replace() } else { h.to_graph_out() }),
        (1, &[a]) => with1!(ge, tmp, &l, |h| if rep { h.to_graph_out_channels_replace(a) } else { h.to_graph_out_channels(a) }),
        (2, &[a, b]) => {
            with2!(ge, tmp, &l, |h| if rep { h.to_graph_out_channels_replace([a, b]) } else { h.to_graph_out_channels([a, b]) })
        }
        _ => None,
    }
}
/// The operation with static handles, or nothing if there are none for it
pub fn op<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, v: &Value) -> Option<Value> {
    let there = |id: i64, tmp: &Tmp| id == 0 || tmp.ch.contains_key(&id) || ge.handle(env.nid(id)).is_some();
    for k in ["l", "r"] {
        if !pairs(v, k).iter().all(|p| there(p.0, tmp)) {
            return None;
        }
    }
    if !arr(v, "sinks").iter().all(|k| there(k.as_i64().unwrap(), tmp)) {
        return None;
    }
    let st = |k: &str| tmp.st.get(&i(v, k)).copied().filter(|_| there(i(v, k), tmp));
    match s(v, "o") {
        "zip" => zip(env, ge, tmp, v)?,
        "outs" => outs(env, ge, tmp, v)?,
        "math" => math(env, ge, tmp, v)?,
        "mathc" => mathc(ge, tmp, v)?,
        "disin" => node!(st("k")?, |h| h.disconnect_input(i(v, "kc") as u16), return None),
        "disout" => match st("s")? {
            St::C1(_) => return None,
            x => node!(x, |h| h.disconnect_output(i(v, "sc") as u16), return None),
        },
        "name" => node!(
            st("id")?,
            |h| {
                h.name(s(v, "nm"));
            },
            return None
        ),
        _ => return None,
    }
    Some(json!("ok"))
}
/// Links a node's output to a parameter of another, both as static handles
pub fn link<'a, 'b, S: Static<Outputs = U1>>(tmp: &Tmp<'a, 'b>, k: i64, p: Param, h: SH<'a, 'b, f32, S>) -> bool {
    match tmp.st.get(&k).copied() {
        Some(St::C1(_)) | None => false,
        Some(st) => node!(
            st,
            |x| {
                x.link(p, h);
                true
            },
            false
        ),
    }
}
