//! Executes scripts (JSON events) against the real knaster_graph code and reports what was observed.
use crate::rec::{self, Rec};
use crate::stat;
use crate::tu::TU;
use knaster_graph::graph::{Graph, GraphError, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::*;
use knaster_graph::handle::{AnyHandle, HandleTrait};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::typenum::*;
use knaster_graph::wrappers_core::{UGenWrapperCoreExt, WrArParams, WrPreciseTiming};
use knaster_graph::*;
use serde_json::{Value, json};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering;

pub struct NodeInfo {
    nid: NodeId,
    gid: i64,
    nin: i64,
    params: Vec<Option<Parameter>>,
    any: Option<AnyHandle>,
}
#[derive(Default)]
pub struct Env {
    graphs: HashMap<i64, Graph<f32>>,
    nodes: HashMap<i64, NodeInfo>,
    keys: HashMap<(u64, String), i64>,
    tokens: HashMap<i64, SchedulingToken>,
    parents: HashMap<i64, i64>,
    sr: u64,
}
impl Env {
    pub fn nid(&self, id: i64) -> NodeId {
        self.nodes.get(&id).map(|n| n.nid).unwrap_or(NodeId::invalid())
    }
    fn nog(&self, id: i64) -> NodeOrGraph {
        if id == 0 { NodeOrGraph::Graph } else { NodeOrGraph::Node(self.nid(id)) }
    }
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[])
}
pub fn pairs(v: &Value, k: &str) -> Vec<(i64, u16)> {
    arr(v, k).iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap() as u16)).collect()
}
pub fn err(e: &GraphError) -> String {
    let d = match e {
        GraphError::FreeError(f) => format!("{f:?}"),
        GraphError::ParameterError(p) => format!("{p:?}"),
        e => format!("{e:?}"),
    };
    d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
pub fn res<T>(r: Result<T, GraphError>) -> Value {
    match r {
        Ok(_) => json!("ok"),
        Err(e) => json!(err(&e)),
    }
}
/// Names that live forever, each of them once
pub fn leak(sx: &str) -> &'static str {
    use std::collections::HashSet;
    thread_local! {
        static NAMES: std::cell::RefCell<HashSet<&'static str>> = Default::default();
    }
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        match n.get(sx) {
            Some(x) => x,
            None => {
                let x: &'static str = Box::leak(sx.to_string().into_boxed_str());
                n.insert(x);
                x
            }
        }
    })
}
pub fn param(v: &Value) -> Param {
    let pn = s(v, "pn");
    if pn.is_empty() { Param::Index(i(v, "p") as usize) } else { Param::Desc(leak(pn)) }
}
/// Smoothing settings: 0 is none, 1 + n is linear over n eighths of a second
pub fn smoothing(n: i64) -> ParameterSmoothing {
    if n == 0 { ParameterSmoothing::None } else { ParameterSmoothing::Linear((n - 1) as f32 / 8.) }
}
pub fn smoothing_code(v: ParameterSmoothing) -> i64 {
    match v {
        ParameterSmoothing::None => 0,
        ParameterSmoothing::Linear(d) => 1 + (d * 8.) as i64,
    }
}
pub fn pval(v: &Value) -> ParameterValue {
    match s(v, "k") {
        "t" => ParameterValue::Trigger,
        "i" => ParameterValue::Integer(PInteger::from(i(v, "v") as usize)),
        _ => ParameterValue::Float(i(v, "v") as PFloat),
    }
}
fn ptime(v: &Value, sr: u64) -> Option<Time> {
    let t = Seconds::from_samples(i(v, "tt") as u64, sr);
    match s(v, "tm") {
        "asap" => Some(Time::asap()),
        "at" => Some(Time::at(t)),
        "after" => Some(Time::after(t)),
        _ => None,
    }
}
macro_rules! with_tu {
    ($nin:expr, $nout:expr, $id:expr, $b:expr, $tk:expr, |$t:ident| $body:expr) => {{
        macro_rules! arm {
            ($I:ty, $O:ty) => {{
                let $t = TU::<$I, $O>::new($id, $b, $tk);
                $body
            }};
        }
        match ($nin, $nout) {
            (0, 0) => arm!(U0, U0),
            (0, 1) => arm!(U0, U1),
            (0, 2) => arm!(U0, U2),
            (1, 0) => arm!(U1, U0),
            (1, 1) => arm!(U1, U1),
            (1, 2) => arm!(U1, U2),
            (2, 0) => arm!(U2, U0),
            (2, 1) => arm!(U2, U1),
            (2, 2) => arm!(U2, U2),
            (3, 0) => arm!(U3, U0),
            (3, 1) => arm!(U3, U1),
            (3, 2) => arm!(U3, U2),
            _ => panic!("HARNESS: unsupported channel configuration"),
        }
    }};
}
macro_rules! with_kind {
    ($kd:expr, $t:ident, |$u:ident| $plain:expr, |$d:ident| $done:expr) => {
        match $kd {
            "plain" => {
                let $u = $t;
                $plain
            }
            "ar" => {
                let $u = WrArParams::new($t);
                $plain
            }
            "prec" => {
                let $u = WrPreciseTiming::<4, _>::new($t);
                $plain
            }
            "done" => {
                let $d = $t;
                $done
            }
            "donear" => {
                let $d = $t.ar_params();
                $done
            }
            "doneprec" => {
                let $d = $t.precise_timing::<4>();
                $done
            }
            "doneprecar" => {
                let $d = $t.ar_params().precise_timing::<4>();
                $done
            }
            "precar" => {
                let $u = $t.ar_params().precise_timing::<4>();
                $plain
            }
            k => panic!("HARNESS: unknown kind {k}"),
        }
    };
}
fn done_of(v: i64) -> Done {
    match v {
        1 => Done::FreeSelf,
        2 => Done::FreeParent,
        _ => Done::None,
    }
}
fn register(env: &mut Env, id: i64, gid: i64, nin: i64, nid: NodeId, params: Vec<Option<Parameter>>, any: Option<AnyHandle>) {
    env.keys.insert((gid as u64, format!("{:?}", nid.key())), id);
    env.nodes.insert(id, NodeInfo { nid, gid, nin, params, any });
}
fn push_ge<'a, 'b>(env: &mut Env, ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, gid: i64, v: &Value) -> Value {
    if let Some((st, nid)) = stat::push(ge, v) {
        let id = i(v, "id");
        tmp.st.insert(id, st);
        if i(v, "i") == 0 && s(v, "kd") == "plain" {
            tmp.leaf.insert(id);
        }
        register(env, id, gid, i(v, "i"), nid, stat::params(&st, id % 2 == 1), None);
        return json!("ok");
    }
    let (id, nin, nout, b, tk) = (i(v, "id"), i(v, "i"), i(v, "n"), i(v, "b"), i(v, "tk"));
    let kd = s(v, "kd");
    let da = i(v, "da");
    macro_rules! reg {
        ($h:expr) => {{
            let h = $h;
            let nid = h.id();
            let params = (0..6).map(|p| h.try_param(p)).collect();
            register(env, id, gid, nin, nid, params, None);
        }};
    }
    with_tu!(nin, nout, id, b, tk, |t| with_kind!(kd, t, |u| reg!(ge.push(u)), |d| reg!(
        ge.push_with_done_action(d, done_of(da))
    )));
    json!("ok")
}
fn push_g(env: &mut Env, gid: i64, v: &Value) -> Value {
    let (id, nin, nout, b, tk) = (i(v, "id"), i(v, "i"), i(v, "n"), i(v, "b"), i(v, "tk"));
    let kd = s(v, "kd");
    let mut g = env.graphs.remove(&gid).expect("HARNESS: no graph");
    macro_rules! reg {
        ($h:expr) => {{
            #[allow(deprecated)]
            let h = $h;
            let any = h.into_any();
            register(env, id, gid, nin, any.node_id(), vec![], Some(any));
        }};
    }
    with_tu!(nin, nout, id, b, tk, |t| with_kind!(kd, t, |u| reg!(g.push(u)), |_d| panic!(
        "HARNESS: done not available here"
    )));
    env.graphs.insert(gid, g);
    json!("ok")
}
pub type Chans<'a, 'b> = DH<'a, 'b, f32, DynamicChannelsHandle>;
/// What lives as long as the edit: results of arithmetic and static handles
pub struct Tmp<'a, 'b> {
    pub ch: HashMap<i64, Chans<'a, 'b>>,
    pub st: HashMap<i64, stat::St<'a, 'b>>,
    /// those which depend on no node with inputs
    pub leaf: HashSet<i64>,
}
fn src<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, tmp: &Tmp<'a, 'b>, p: (i64, u16)) -> Result<Chans<'a, 'b>, String> {
    if let Some(t) = tmp.ch.get(&p.0) {
        return Ok(t.out(p.1));
    }
    if p.0 == 0 {
        return match ge.from_inputs(p.1) {
            Ok(h) => Ok(h.dynamic()),
            Err(e) => Err(err(&e)),
        };
    }
    match ge.handle(env.nid(p.0)) {
        Some(h) if (p.0 + p.1 as i64) % 2 == 1 => Ok(h.to_channels_handle().out(p.1)),
        Some(h) => Ok(h.out(p.1)),
        None => Err("nohandle".into()),
    }
}
pub fn srcs<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, tmp: &Tmp<'a, 'b>, l: &[(i64, u16)]) -> Result<Chans<'a, 'b>, String> {
    let mut acc: Option<Chans<'a, 'b>> = None;
    for p in l {
        let h = src(env, ge, tmp, *p)?;
        acc = Some(match acc {
            None => h,
            Some(a) => a | h,
        });
    }
    acc.ok_or("empty".into())
}
fn sinks<'a, 'b>(env: &Env, ge: &'a GraphEdit<'b, f32>, l: &[Value]) -> Result<Chans<'a, 'b>, String> {
    let mut acc: Option<Chans<'a, 'b>> = None;
    for k in l {
        let Some(h) = ge.handle(env.nid(k.as_i64().unwrap())) else {
            return Err("nohandle".into());
        };
        let h = h.to_channels_handle();
        acc = Some(match acc {
            None => h,
            Some(a) => a.stack(h),
        });
    }
    acc.ok_or("empty".into())
}
fn run_ops<'b>(env: &mut Env, ge: &GraphEdit<'b, f32>, gid: i64, ops: &[Value]) -> Vec<Value> {
    let mut tmp = Tmp { ch: HashMap::new(), st: HashMap::new(), leaf: HashSet::new() };
    let mut out = vec![];
    for v in ops {
        out.push(run_op(env, ge, &mut tmp, gid, v));
    }
    out
}
fn run_op<'a, 'b>(env: &mut Env, ge: &'a GraphEdit<'b, f32>, tmp: &mut Tmp<'a, 'b>, gid: i64, v: &Value) -> Value {
    macro_rules! tri {
        ($e:expr) => {
            match $e {
                Ok(h) => h,
                Err(e) => return json!(e),
            }
        };
    }
    if i(v, "sy") > 0 {
        if let Some(r) = stat::op(env, ge, tmp, v) {
            return r;
        }
    }
    match s(v, "o") {
        "push" => push_ge(env, ge, tmp, gid, v),
        // the audio thread produces a block while the edit is being made
        "blk" => {
            let saved = rec::take();
            let e = AUDIO.with(|a| unsafe { a.get().as_mut() }.expect("HARNESS: no processor").block(v, None));
            rec::with(|r| *r = saved);
            e
        }
        "zip" => {
            let l = tri!(srcs(env, ge, tmp, &pairs(v, "l")));
            let ks = arr(v, "sinks");
            // A single sink uses its own handle, so that both handle types are exercised
            if ks.len() == 1 && s(v, "via") != "stack" {
                let Some(k) = ge.handle(env.nid(ks[0].as_i64().unwrap())) else {
                    return json!("nohandle");
                };
                zip(l, k, v)
            } else {
                let k = tri!(sinks(env, ge, ks));
                zip(l, k, v)
            }
        }
        "outs" => {
            let l = tri!(srcs(env, ge, tmp, &pairs(v, "l")));
            let ch: Vec<u16> = arr(v, "ch").iter().map(|c| c.as_i64().unwrap() as u16).collect();
            let rep = s(v, "m") == "rep";
            macro_rules! outch {
                ($($n:literal),*) => {
                    match ch.len() {
                        $($n => {
                            let a: [u16; $n] = ch.try_into().unwrap();
                            if rep { l.to_graph_out_channels_replace(a) } else { l.to_graph_out_channels(a) }
                        })*
                        _ => panic!("HARNESS: number of channels"),
                    }
                };
            }
            if ch.is_empty() {
                if rep { l.to_graph_out_replace() } else { l.to_graph_out() }
            } else {
                outch!(1, 2, 3, 4)
            }
            json!("ok")
        }
        "math" => {
            let l = tri!(srcs(env, ge, tmp, &pairs(v, "l")));
            let r = tri!(srcs(env, ge, tmp, &pairs(v, "r")));
            let h = match s(v, "op") {
                "add" => l + r,
                "sub" => l - r,
                "mul" => l * r,
                "div" => l / r,
                _ => l.pow(r),
            };
            let ids = arr(v, "ids");
            for (n, id) in ids.iter().enumerate() {
                tmp.ch.insert(id.as_i64().unwrap(), h.out(n as u16));
            }
            json!("ok")
        }
        "mathc" => {
            let l = tri!(srcs(env, ge, tmp, &pairs(v, "l")));
            let k = i(v, "k");
            macro_rules! opc {
                ($k:expr) => {{
                    let k = $k;
                    match (s(v, "op"), i(v, "rev")) {
                        ("add", 0) => l + k,
                        ("sub", 0) => l - k,
                        ("mul", 0) => l * k,
                        ("div", 0) => l / k,
                        ("add", _) => k + l,
                        ("sub", _) => k - l,
                        ("mul", _) => k * l,
                        (_, _) => k / l,
                    }
                }};
            }
            let h = match s(v, "ty") {
                "f64" => opc!(k as f64),
                "usize" => opc!(k as usize),
                "i32" => opc!(k as i32),
                _ => opc!(k as f32),
            };
            for (n, id) in arr(v, "ids").iter().enumerate() {
                tmp.ch.insert(id.as_i64().unwrap(), h.out(n as u16));
            }
            json!("ok")
        }
        "free" => res(ge.free_node(env.nid(i(v, "id")))),
        "disin" => {
            let Some(h) = ge.handle(env.nid(i(v, "k"))) else { return json!("nohandle") };
            h.disconnect_input(i(v, "kc") as u16);
            json!("ok")
        }
        "disout" => {
            let Some(h) = ge.handle(env.nid(i(v, "s"))) else { return json!("nohandle") };
            h.disconnect_output(i(v, "sc") as u16);
            json!("ok")
        }
        "name" => {
            let Some(h) = ge.handle(env.nid(i(v, "id"))) else { return json!("nohandle") };
            h.name(s(v, "nm"));
            json!("ok")
        }
        "look" => match ge.handle_from_name(s(v, "nm")) {
            Some(h) => json!(env.keys.get(&(gid as u64, format!("{:?}", h.id().key()))).copied().unwrap_or(-1).to_string()),
            None => json!("none"),
        },
        "has" => json!(if ge.handle(env.nid(i(v, "id"))).is_some() { "yes" } else { "no" }),
        "set" if i(v, "sy") > 0 && ge.handle(env.nid(i(v, "id"))).and_then(|h| h.try_param(param(v))).is_some() => {
            let mut p = ge.handle(env.nid(i(v, "id"))).unwrap().param(param(v));
            res(p.set_time(pval(v), ptime(v, env.sr).unwrap_or(Time::asap())))
        }
        "set" => res(ge.set(env.nid(i(v, "id")), param(v), pval(v), ptime(v, env.sr).unwrap_or(Time::asap()))),
        "sub" => {
            let id = i(v, "id");
            let cap = if v["cap"].is_null() { 16 } else { i(v, "cap") as usize };
            let opts = GraphOptions::default().name(format!("sub{id}")).ring_buffer_size(cap);
            let mut rs = vec![];
            macro_rules! mk {
                ($I:ty, $O:ty) => {{
                    let (h, g) = ge.subgraph::<$I, $O>(opts, |inner| {
                        rs = run_ops(env, &inner, id, arr(v, "ops"));
                    });
                    register(env, id, gid, i(v, "i"), h.id(), vec![], None);
                    env.graphs.insert(id, g);
                }};
            }
            match (i(v, "i"), i(v, "n")) {
                (0, 1) => mk!(U0, U1),
                (1, 1) => mk!(U1, U1),
                (2, 1) => mk!(U2, U1),
                (1, 2) => mk!(U1, U2),
                (2, 2) => mk!(U2, U2),
                (0, 2) => mk!(U0, U2),
                _ => panic!("HARNESS: unsupported subgraph"),
            }
            env.parents.insert(id, gid);
            json!(rs)
        }
        "link" => {
            let k = i(v, "k");
            let Some(h) = ge.handle(env.nid(k)) else { return json!("nohandle") };
            let (sn, sc) = (v["s"][0].as_i64().unwrap(), v["s"][1].as_i64().unwrap());
            if sn == 0 {
                match ge.from_inputs(sc as u16) {
                    Ok(s) => {
                        h.link(param(v), s);
                    }
                    Err(e) => return json!(err(&e)),
                }
                return json!("ok");
            }
            panic!("HARNESS: link needs a static source")
        }
        // Push a node and link it straight to a parameter, using the static handles
        "linkpush" => {
            let k = i(v, "k");
            let Some(h) = ge.handle(env.nid(k)) else { return json!("nohandle") };
            let (id, b, tk) = (i(v, "id"), i(v, "b"), i(v, "tk"));
            let sh = ge.push(TU::<U0, U1>::new(id, b, tk));
            register(env, id, gid, 0, sh.id(), (0..6).map(|p| sh.try_param(p)).collect(), None);
            if i(v, "sy") == 0 || !stat::link(tmp, k, param(v), sh) {
                h.link(param(v), sh);
            }
            json!("ok")
        }
        o => panic!("HARNESS: unknown op {o}"),
    }
}
fn zip<'a, 'b, S: Dynamic>(l: Chans<'a, 'b>, k: DH<'a, 'b, f32, S>, v: &Value) -> Value {
    match s(v, "m") {
        "to" => match s(v, "via") {
            "shr" => {
                let _ = l >> k;
            }
            "try" => return res(l.try_to(k)),
            _ => {
                l.to(k);
            }
        },
        "rep" => {
            l.to_replace(k);
        }
        "fb" => {
            l.to_feedback(k);
        }
        "fbr" => {
            l.to_feedback_replace(k);
        }
        m => panic!("HARNESS: mode {m}"),
    }
    json!("ok")
}
fn run_dir(env: &mut Env, gid: i64, v: &Value) -> Value {
    let o = s(v, "o");
    if o == "push" {
        return push_g(env, gid, v);
    }
    let Some(mut g) = env.graphs.remove(&gid) else { return json!("nograph") };
    let r = match o {
        "con" => {
            let (so, si) = (env.nog(i(v, "s")), env.nog(i(v, "k")));
            let (sc, kc) = (i(v, "sc") as u16, i(v, "kc") as u16);
            res(match s(v, "m") {
                "to" => match (so, si) {
                    (NodeOrGraph::Node(a), NodeOrGraph::Node(b)) => g.connect2(a, sc, kc, b),
                    (a, b) => g.connect2(a, sc, kc, b),
                },
                "rep" => g.connect2_replace(so, sc, kc, si),
                "fb" => g.connect2_feedback(so, sc, kc, si),
                _ => g.connect2_feedback_replace(so, sc, kc, si),
            })
        }
        "conp" => {
            let (so, si) = (env.nid(i(v, "s")), env.nid(i(v, "k")));
            let sc = i(v, "sc") as u16;
            res(if s(v, "m") == "rep" {
                g.connect_replace_to_parameter(so, sc, param(v), si)
            } else {
                g.connect_to_parameter(so, sc, param(v), si)
            })
        }
        "disin" => res(g.disconnect_input_to_sink(i(v, "kc") as u16, env.nog(i(v, "k")))),
        "disout" => res(g.disconnect_output_from_source(env.nog(i(v, "s")), i(v, "sc") as u16)),
        "mort" => res(g.set_mortality(env.nid(i(v, "id")), i(v, "b") == 1)),
        "look" => match g.node_id_with_name(s(v, "nm")) {
            Some(h) => json!(env.keys.get(&(gid as u64, format!("{:?}", h.key()))).copied().unwrap_or(-1).to_string()),
            None => json!("none"),
        },
        "has" => json!(if g.node_data(env.nid(i(v, "id"))).is_some() { "yes" } else { "no" }),
        o => panic!("HARNESS: unknown direct op {o}"),
    };
    env.graphs.insert(gid, g);
    r
}
fn run_set(env: &mut Env, v: &Value, sr: u64) -> Value {
    let id = i(v, "id");
    let gid = i(v, "g");
    let t = ptime(v, sr);
    match s(v, "via") {
        "param" => {
            let Some(n) = env.nodes.get_mut(&id) else { return json!("nonode") };
            let p = i(v, "p") as usize;
            let Some(Some(pa)) = n.params.get_mut(p) else { return json!("noparam") };
            let secs = Seconds::from_samples(i(v, "tt") as u64, sr);
            let val = pval(v);
            if s(v, "k").is_empty() {
                let sm = smoothing(i(v, "sm"));
                return res(match s(v, "tm") {
                    "none" => pa.smooth(sm),
                    "at" => pa.smooth_at(sm, secs),
                    "after" => pa.smooth_after(sm, secs),
                    _ => pa.smooth_time(sm, Time::asap()),
                });
            }
            res(match (s(v, "tm"), s(v, "k")) {
                ("none", "t") => pa.trig(),
                ("at", "t") => pa.trig_at(secs),
                ("after", "t") => pa.trig_after(secs),
                ("asap", "t") => pa.trig_time(Time::asap()),
                ("none", _) => pa.set(val),
                ("at", _) => pa.set_at(val, secs),
                ("after", _) => pa.set_after(val, secs),
                _ => pa.set_time(val, Time::asap()),
            })
        }
        "handle" => {
            let tok = i(v, "tok");
            let token = (tok > 0).then(|| env.tokens.entry(tok).or_insert_with(SchedulingToken::new).clone());
            let Some(n) = env.nodes.get(&id) else { return json!("nonode") };
            let Some(h) = &n.any else { return json!("nohandle") };
            let sm = v["sm"].as_i64().filter(|n| *n >= 0).map(smoothing);
            res(match (token, sm) {
                (Some(tk), None) => h.set((param(v), pval(v), tk)),
                (Some(tk), Some(sm)) => h.set((param(v), pval(v), sm, tk)),
                (None, Some(sm)) => h.set((param(v), pval(v), sm)),
                (None, None) => h.set((param(v), pval(v))),
            })
        }
        _ => match env.graphs.get(&gid) {
            Some(g) => res(g.set(env.nid(id), param(v), pval(v), t.unwrap_or(Time::asap()))),
            None => json!("nograph"),
        },
    }
}
fn inspect(env: &Env, gid: i64) -> Value {
    let Some(g) = env.graphs.get(&gid) else { return json!("nograph") };
    let ins = g.inspection();
    // Unknown (automatically added) nodes get negative ids in order of appearance
    let mut auto: HashMap<String, i64> = HashMap::new();
    let mut idof = |k: String| -> i64 {
        if let Some(id) = env.keys.get(&(gid as u64, k.clone())) {
            return *id;
        }
        let n = auto.len() as i64;
        *auto.entry(k).or_insert(-1 - n)
    };
    let mut nodes = vec![];
    for n in &ins.nodes {
        let id = idof(format!("{:?}", n.key));
        let mut edges = vec![];
        for e in &n.input_edges {
            let sid = match e.source {
                knaster_graph::inspection::EdgeSource::Node(k) => idof(format!("{k:?}")),
                knaster_graph::inspection::EdgeSource::Graph => 0,
            };
            edges.push(json!([sid, e.from_index, e.to_index]));
        }
        nodes.push(json!({"id": id, "i": n.inputs, "n": n.outputs, "e": edges, "un": n.unconnected as i64,
            "pd": n.parameter_descriptions, "nh": n.parameter_hints.len(), "nm": n.name}));
    }
    let mut oe = vec![];
    for e in &ins.graph_output_edges {
        let sid = match e.source {
            knaster_graph::inspection::EdgeSource::Node(k) => idof(format!("{k:?}")),
            knaster_graph::inspection::EdgeSource::Graph => 0,
        };
        oe.push(json!([sid, e.from_index, e.to_index]));
    }
    json!({"nodes": nodes, "oe": oe, "i": ins.num_inputs, "n": ins.num_outputs})
}

struct Mid {
    at: i64,
    ev: Value,
}
thread_local! {
    static MID: Cell<*mut MidCtx> = const { Cell::new(std::ptr::null_mut()) };
}
struct MidCtx {
    env: *mut Env,
    sr: u64,
    mids: Vec<Mid>,
    done: Vec<Value>,
}
/// Called by a test UGen at the end of its processing; runs control thread operations which the
/// script places in the middle of this audio callback.
pub fn mid_run(id: i64) {
    let p = MID.with(|m| m.get());
    if p.is_null() {
        return;
    }
    let mc = unsafe { &mut *p };
    while let Some(pos) = mc.mids.iter().position(|m| m.at == id) {
        let env = unsafe { &mut *mc.env };
        rec::paused(|| {
            let m = mc.mids.remove(pos);
            rec::as_control(|| {
                let before = rec::take_drops();
                let nruns = rec::with(|r| r.runs.len());
                let mut e = control(env, &m.ev, mc.sr).unwrap_or_else(|| panic!("HARNESS: bad mid event"));
                e["at"] = json!(id);
                e["after"] = json!(nruns);
                let mut r = Rec::default();
                r.drops = rec::take_drops();
                r.inits = rec::with(|r| std::mem::take(&mut r.inits));
                observe_control(&mut e, &r);
                rec::with(|r| r.drops = before);
                mc.done.push(e);
            })
        });
    }
}
fn observe_control(e: &mut Value, r: &Rec) {
    e["drops"] = json!(r.drops.iter().map(|d| d.0).collect::<Vec<_>>());
    e["inits"] = json!(r.inits.iter().map(|d| json!([d.0, d.1, d.2])).collect::<Vec<_>>());
}
/// Control thread events. Returns None if it's not a control event.
fn control(env: &mut Env, v: &Value, sr: u64) -> Option<Value> {
    let mut e = v.clone();
    match s(v, "ev") {
        "edit" => {
            let gid = i(v, "g");
            let Some(mut g) = env.graphs.remove(&gid) else {
                e["rs"] = json!("nograph");
                return Some(e);
            };
            let mut rs = vec![];
            g.edit(|ge| {
                rs = run_ops(env, &ge, gid, arr(v, "ops"));
            });
            env.graphs.insert(gid, g);
            e["rs"] = json!(rs);
        }
        "dir" => {
            let gid = i(v, "g");
            let rs: Vec<Value> = arr(v, "ops").iter().map(|o| run_dir(env, gid, o)).collect();
            e["rs"] = json!(rs);
        }
        "set" => e["r"] = run_set(env, v, sr),
        "many" => {
            let ch: Vec<_> = arr(v, "ch").iter().map(|c| (env.nid(i(c, "id")), param(c), pval(c))).collect();
            if let Some(g) = env.graphs.get(&i(v, "g")) {
                g.set_many(&ch, ptime(v, sr).unwrap_or(Time::asap()));
            }
        }
        "act" => {
            let tok = i(v, "tok");
            env.tokens.entry(tok).or_insert_with(SchedulingToken::new).clone().activate_inner();
        }
        "insp" => e["obs"] = inspect(env, i(v, "g")),
        "dropg" => {
            env.graphs.remove(&i(v, "g"));
        }
        "alive" => {
            let id = i(v, "id");
            e["r"] = match env.nodes.get(&id).and_then(|n| n.any.as_ref()) {
                Some(h) => json!(if h.can_send() { "yes" } else { "no" }),
                None => json!("nohandle"),
            };
        }
        _ => return None,
    }
    Some(e)
}
macro_rules! with_io {
    ($i:expr, $n:expr, |$I:ident, $O:ident| $body:expr) => {{
        macro_rules! arm {
            ($a:ty, $b:ty) => {{
                type $I = $a;
                type $O = $b;
                $body
            }};
        }
        match ($i, $n) {
            (0, 1) => arm!(U0, U1),
            (0, 2) => arm!(U0, U2),
            (0, 3) => arm!(U0, U3),
            (1, 1) => arm!(U1, U1),
            (1, 2) => arm!(U1, U2),
            (2, 1) => arm!(U2, U1),
            (2, 2) => arm!(U2, U2),
            (3, 2) => arm!(U3, U2),
            (2, 3) => arm!(U2, U3),
            _ => panic!("HARNESS: unsupported graph channels"),
        }
    }};
}
/// The audio side. Operations within an edit may run it, like an audio thread would.
struct Audio {
    proc_: Option<AudioProcessor<f32>>,
    log: Option<knaster_graph::log::ArLogReceiver<U1>>,
    clock: knaster_graph::SharedFrameClock,
    sr: u64,
}
thread_local! {
    static AUDIO: Cell<*mut Audio> = const { Cell::new(std::ptr::null_mut()) };
}
pub struct Session {
    pub env: Env,
    audio: Box<Audio>,
    pub sr: u64,
}
impl Session {
    pub fn new(v: &Value) -> Self {
        let (bs, sr) = (i(v, "bs") as usize, i(v, "sr") as u32);
        let cap = i(v, "cap") as usize;
        let o = AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: cap, log_channel_capacity: 4000 };
        let mut env = Env { sr: sr as u64, ..Default::default() };
        let (g, p, l) = with_io!(i(v, "nin"), i(v, "nout"), |I, O| AudioProcessor::<f32>::new::<I, O>(o));
        let clock = g.shared_frame_clock();
        env.graphs.insert(0, g);
        Session { env, audio: Box::new(Audio { proc_: Some(p), log: Some(l), clock, sr: sr as u64 }), sr: sr as u64 }
    }
    /// Executes one event and returns it with the observations filled in.
    pub fn step(&mut self, v: &Value) -> Value {
        let sr = self.sr;
        AUDIO.with(|a| a.set(&mut *self.audio));
        if let Some(mut e) = control(&mut self.env, v, sr) {
            let r = rec::take();
            observe_control(&mut e, &r);
            return e;
        }
        match s(v, "ev") {
            "blk" => self.audio.block(v, Some(&mut self.env)),
            "end" => {
                let mut e = v.clone();
                if s(v, "order") == "proc" {
                    self.audio.proc_ = None;
                    self.env.graphs.clear();
                } else if s(v, "order") == "mixed" {
                    let top = self.env.graphs.remove(&0);
                    drop(top);
                    self.audio.proc_ = None;
                    self.env.graphs.clear();
                } else {
                    self.env.graphs.clear();
                    self.audio.proc_ = None;
                }
                let r = rec::take();
                observe_control(&mut e, &r);
                e
            }
            x => panic!("HARNESS: unknown event {x}"),
        }
    }
}
impl Audio {
    fn block(&mut self, v: &Value, env: Option<&mut Env>) -> Value {
        let mut e = v.clone();
        let Some(p) = self.proc_.as_mut() else {
            e["noproc"] = json!(1);
            return e;
        };
        let ins: Vec<Vec<f32>> =
            arr(v, "in").iter().map(|c| c.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f32).collect()).collect();
        let slices: Vec<&[f32]> = ins.iter().map(|x| x.as_slice()).collect();
        let mids = if env.is_some() { arr(v, "mid").iter().map(|m| Mid { at: i(m, "at"), ev: m["ev"].clone() }).collect() } else { vec![] };
        let env = env.map(|e| e as *mut Env).unwrap_or(std::ptr::null_mut());
        let mut mc = MidCtx { env, sr: self.sr, mids, done: vec![] };
        rec::take();
        rec::with(|r| {
            r.runs.reserve(64);
        });
        rec::ALLOCS.store(0, Ordering::Relaxed);
        rec::FREES.store(0, Ordering::Relaxed);
        MID.with(|m| m.set(&mut mc));
        let r = catch_unwind(AssertUnwindSafe(|| {
            rec::on_audio(|| {
                if i(v, "raw") == 1 {
                    let ptrs: Vec<*const f32> = rec::paused(|| slices.iter().map(|x| x.as_ptr()).collect());
                    unsafe { p.run_raw_ptr_inputs(&ptrs) };
                    rec::paused(|| drop(ptrs));
                } else if slices.is_empty() && i(v, "raw") == 2 {
                    p.run_without_inputs();
                } else {
                    p.run(&slices);
                }
            })
        }));
        MID.with(|m| m.set(std::ptr::null_mut()));
        let (al, fr) = (rec::ALLOCS.load(Ordering::Relaxed), rec::FREES.load(Ordering::Relaxed));
        if let Err(x) = r {
            std::panic::resume_unwind(x);
        }
        let rc = rec::take();
        let ob = p.output_block();
        let outs: Vec<Vec<i64>> = (0..BlockRead::channels(&*ob))
            .map(|c| BlockRead::channel_as_slice(&*ob, c).iter().map(|x| rec::int(*x as f64)).collect())
            .collect();
        e["outs"] = json!(outs);
        e["al"] = json!(al);
        e["fr"] = json!(fr);
        e["runs"] = json!(rc.runs.iter().map(|r| json!({"id": r.0, "v": r.1})).collect::<Vec<_>>());
        e["calls"] = json!(rc.calls.iter().map(|c| json!([c.0, c.1, c.2, c.3])).collect::<Vec<_>>());
        e["ap"] = json!(rc.applies.iter().map(|a| json!([a.0, a.1, a.2, a.3])).collect::<Vec<_>>());
        e["drops"] = json!(rc.drops.iter().map(|d| d.0).collect::<Vec<_>>());
        e["bad"] = json!(rc.bad);
        e["mids"] = json!(mc.done);
        e["unmid"] = json!(mc.mids.len());
        e["bufs"] = bufs(&rc.bufs);
        // The shared clock, as seen by control threads
        let clk = self.clock.get().to_samples(self.sr) as i64;
        e["clk"] = json!(clk);
        if let Some(l) = self.log.as_mut() {
            let mut n = 0;
            l.recv(|_| n += 1);
            e["logs"] = json!(n);
        }
        e
    }
}
/// Buffer addresses in units of samples relative to the lowest address of the block's buffers
fn bufs(b: &[(i64, Vec<usize>, Vec<usize>)]) -> Value {
    json!(b.len())
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        m
    })
}
/// Runs a script, passing every observed event to `emit`. Returns false on a panic.
pub fn run_script(evs: &[Value], mut emit: impl FnMut(Value)) -> bool {
    let mut sess: Option<Session> = None;
    for v in evs {
        let r = quiet(|| {
            if s(v, "ev") == "reset" {
                rec::take();
                sess = Some(Session::new(v));
                v.clone()
            } else {
                sess.as_mut().expect("HARNESS: no reset").step(v)
            }
        });
        match r {
            Ok(e) => emit(e),
            Err(m) => {
                if m.starts_with("HARNESS") {
                    eprintln!("{m}");
                    std::process::exit(3);
                }
                emit(json!({"ev": "panic", "msg": m, "of": v}));
                // What is left may be in any state
                std::mem::forget(sess);
                return false;
            }
        }
    }
    true
}
