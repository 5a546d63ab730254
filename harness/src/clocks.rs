//! The clock and timed changes over long times: `kharness clock SCRIPTS TRACE`. Frames are counted in units
//! of `u` frames, so that the clock can go far beyond what the specification can count in frames.
//! A script starts with {"ev":"reset","u":..,"bs":..,"sr":..,"cap":..,"prec":0|1,"sub":0|1}.

use knaster_graph::graph::{Graph, GraphOptions, NodeId};
use knaster_graph::handle::{AnyHandle, HandleTrait};
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::typenum::*;
use knaster_graph::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashMap;

fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or(0)
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}

#[derive(Default)]
struct Seen {
    /// processed frames: contiguous pieces
    spans: Vec<(u64, u64)>,
    /// (frame, parameter, value)
    applied: Vec<(u64, usize, f64)>,
    /// applied since the last call of process_block
    fresh: Vec<(usize, f64)>,
}
thread_local! {
    static SEEN: RefCell<Seen> = RefCell::default();
}

/// Notes the frames it is asked to process and the frame from which a change holds
struct Watch;
impl UGen for Watch {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U0;
    type Parameters = U2;
    fn process(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, U0>) -> Frame<f32, U0> {
        note(ctx.frame_clock(), 1);
        [].into()
    }
    fn process_block<IB, OB>(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: &IB, _: &mut OB)
    where
        IB: BlockRead<Sample = f32> + ?Sized,
        OB: Block<Sample = f32> + ?Sized,
    {
        note(ctx.frame_clock(), ctx.frames_to_process() as u64);
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["a", "b"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, index: usize, value: ParameterValue) {
        if let ParameterValue::Float(f) = value {
            #[allow(clippy::unnecessary_cast)]
            SEEN.with_borrow_mut(|x| x.fresh.push((index, f as f64)));
        }
    }
}
fn note(at: u64, n: u64) {
    SEEN.with_borrow_mut(|x| {
        match x.spans.last_mut() {
            Some((_, e)) if *e == at => *e += n,
            _ => x.spans.push((at, at + n)),
        }
        for (p, v) in std::mem::take(&mut x.fresh) {
            x.applied.push((at, p, v));
        }
    });
}

struct Session {
    graph: Graph<f32>,
    inner: Option<Graph<f32>>,
    node: NodeId,
    handle: AnyHandle,
    proc_: AudioProcessor<f32>,
    log: knaster_graph::log::ArLogReceiver<U1>,
    tokens: HashMap<i64, SchedulingToken>,
    unit: u64,
    sr: u64,
}
impl Session {
    fn new(v: &Value) -> Self {
        let unit = i(&v["u"]) as u64;
        let bs = (i(&v["bs"]) as u64 * unit) as usize;
        let sr = i(&v["sr"]) as u32;
        let cap = i(&v["cap"]) as usize;
        SEEN.set(Seen::default());
        let o = AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: cap, log_channel_capacity: 4000 };
        let (mut graph, proc_, log) = AudioProcessor::<f32>::new::<U0, U1>(o);
        let mut inner = None;
        let prec = i(&v["prec"]) == 1;
        let (node, handle) = if i(&v["sub"]) == 1 {
            let mut g = graph.edit(|e| e.subgraph::<U0, U0>(GraphOptions::default().ring_buffer_size(cap), |_| {}).1);
            let r = insert(&mut g, prec);
            inner = Some(g);
            r
        } else {
            insert(&mut graph, prec)
        };
        Session { graph, inner, node, handle, proc_, log, tokens: HashMap::new(), unit, sr: sr as u64 }
    }
    fn units(&self, frames: u64) -> Value {
        // a place between two units is a negative number, which the specification never expects
        if frames % self.unit == 0 { json!(frames / self.unit) } else { json!(-((frames / self.unit) as i64) - 1) }
    }
    fn step(&mut self, v: &Value) -> Value {
        let mut e = v.clone();
        match s(&v["ev"]) {
            "set" => {
                let t = Seconds::from_samples(i(&v["tt"]) as u64 * self.unit, self.sr);
                let (p, x, tok) = (i(&v["p"]) as usize, i(&v["v"]) as f32, i(&v["tok"]));
                let g = self.inner.as_ref().unwrap_or(&self.graph);
                let r = if tok > 0 {
                    let token = self.tokens.entry(tok).or_insert_with(SchedulingToken::new).clone();
                    self.handle.set((p, x, token))
                } else {
                    let t = match s(&v["tm"]) {
                        "at" => Time::at(t),
                        "after" => Time::after(t),
                        _ => Time::asap(),
                    };
                    g.set(self.node, p, x, t)
                };
                e["r"] = json!(if r.is_ok() { "ok" } else { "err" });
            }
            "act" => {
                self.tokens.entry(i(&v["tok"])).or_insert_with(SchedulingToken::new).clone().activate_inner();
            }
            "blk" => {
                for _ in 0..i(&v["n"]) {
                    match i(&v["via"]) {
                        1 => self.proc_.run(&[]),
                        2 => unsafe { self.proc_.run_raw_ptr_inputs(&[]) },
                        _ => self.proc_.run_without_inputs(),
                    }
                    self.log.recv(|_| {});
                }
                let x = SEEN.take();
                let clk = self.graph.shared_frame_clock().get().to_samples(self.sr);
                let hnd = self.handle.current_frame_time().to_samples(self.sr);
                e["spans"] = json!(x.spans.iter().map(|(a, b)| json!([self.units(*a), self.units(*b)])).collect::<Vec<_>>());
                e["ap"] = json!(x.applied.iter().map(|(a, p, v)| json!([self.units(*a), p, *v as i64])).collect::<Vec<_>>());
                e["left"] = json!(x.fresh.len());
                e["clk"] = self.units(clk);
                e["hnd"] = self.units(hnd);
            }
            x => panic!("HARNESS: unknown event {x}"),
        }
        e
    }
}
fn insert(g: &mut Graph<f32>, prec: bool) -> (NodeId, AnyHandle) {
    let h = if prec { g.push(Watch.precise_timing::<4>()).into_any() } else { g.push(Watch).into_any() };
    g.edit(|_| {});
    (h.node_id(), h)
}
pub fn run_script(evs: &[Value], mut emit: impl FnMut(Value)) {
    let mut sess: Option<Session> = None;
    for v in evs {
        let r = crate::exec::quiet(|| {
            if s(&v["ev"]) == "reset" {
                sess = Some(Session::new(v));
                v.clone()
            } else {
                sess.as_mut().expect("HARNESS: no reset").step(v)
            }
        });
        match r {
            Ok(e) => emit(e),
            Err(m) => {
                if m.starts_with("HARNESS") {
                    eprintln!("{m}");
                    std::process::exit(3);
                }
                emit(json!({"ev": "panic", "msg": m, "of": v}));
                return;
            }
        }
    }
}
