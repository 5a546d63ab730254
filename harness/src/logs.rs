//! The log channel: `kharness log SCRIPTS TRACE`. A script starts with {"ev":"reset","caps":[..]}.

use knaster_graph::log::{ArLogMessage, ArLogReceiver, ArLogSender};
use knaster_graph::typenum::*;
use knaster_graph::*;
use serde_json::{Value, json};

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or(0)
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|x| x.as_slice()).unwrap_or(&[])
}

/// A value of the type which its first element names
struct P(Value);
impl From<P> for ArLogMessage {
    fn from(p: P) -> Self {
        let k = s(&p.0[0]);
        let v = p.0[1].as_str().unwrap_or("").to_string();
        match k {
            "str" => ArLogMessage::from(&*Box::leak(v.into_boxed_str())),
            "f32" => ArLogMessage::from(v.parse::<f32>().unwrap()),
            "f64" => ArLogMessage::from(v.parse::<f64>().unwrap()),
            "u8" => ArLogMessage::from(v.parse::<u8>().unwrap()),
            "u16" => ArLogMessage::from(v.parse::<u16>().unwrap()),
            "u32" => ArLogMessage::from(v.parse::<u32>().unwrap()),
            "u64" => ArLogMessage::from(v.parse::<u64>().unwrap()),
            "usize" => ArLogMessage::from(v.parse::<usize>().unwrap()),
            "i8" => ArLogMessage::from(v.parse::<i8>().unwrap()),
            "i16" => ArLogMessage::from(v.parse::<i16>().unwrap()),
            "i32" => ArLogMessage::from(v.parse::<i32>().unwrap()),
            "i64" => ArLogMessage::from(v.parse::<i64>().unwrap()),
            "secs" => {
                let (a, b) = v.split_once(':').unwrap();
                ArLogMessage::from(Seconds::new(a.parse().unwrap(), b.parse().unwrap()))
            }
            _ => ArLogMessage::End,
        }
    }
}
fn seen(m: &ArLogMessage) -> Value {
    let (k, v) = match m {
        ArLogMessage::Str(x) => ("Str", x.to_string()),
        ArLogMessage::Float(x) => ("Float", x.to_string()),
        ArLogMessage::Unsigned(x) => ("Unsigned", x.to_string()),
        ArLogMessage::Signed(x) => ("Signed", x.to_string()),
        ArLogMessage::Timestamp(x) => ("Timestamp", {
            let t = x.to_subsample_tesimals_u64();
            format!("{}:{}", t / 282240000, t % 282240000)
        }),
        ArLogMessage::End => ("End", "End".to_string()),
    };
    let is_end = if m.is_end() { "End" } else { k };
    json!([if k == "End" { is_end } else if m.is_end() { "is_end" } else { k }, v, m.to_string()])
}

/// A LogProbe, the context with its sender, and the size of its blocks
struct Probe(util::LogProbe<f64>, AudioCtx, usize);
impl Probe {
    fn block(&mut self, vals: &[f64]) {
        let mut flags = UGenFlags::new();
        let n = vals.len();
        if n == 1 && self.2 != 1 {
            // frame by frame
            self.0.process(&mut self.1, &mut flags, [vals[0]].into());
            return;
        }
        let mut b = VecBlock::<f64>::new(1, self.2);
        b.channel_as_slice_mut(0)[..n].copy_from_slice(vals);
        self.1.block = BlockMetadata::new(self.2).make_partial(0, n);
        self.0.process_block(&mut self.1, &mut flags, &b.partial(0, n), &mut EmptyBlock::new());
    }
}
enum R {
    R0(ArLogReceiver<U0>),
    R1(ArLogReceiver<U1>),
    R2(ArLogReceiver<U2>),
    R3(ArLogReceiver<U3>),
    R4(ArLogReceiver<U4>),
}
impl R {
    fn add(self, cap: usize) -> (Option<ArLogSender>, R) {
        match self {
            R::R0(r) => {
                let (s, r) = r.sender(cap);
                (Some(s), R::R1(r))
            }
            R::R1(r) => {
                let (s, r) = r.sender(cap);
                (Some(s), R::R2(r))
            }
            R::R2(r) => {
                let (s, r) = r.sender(cap);
                (Some(s), R::R3(r))
            }
            R::R3(r) => {
                let (s, r) = r.sender(cap);
                (Some(s), R::R4(r))
            }
            r => (None, r),
        }
    }
    fn recv(&mut self) -> Vec<Value> {
        let mut got = Vec::new();
        let f = |m: &[ArLogMessage]| {
            if !m.is_empty() {
                got.push(Value::from(m.iter().map(seen).collect::<Vec<_>>()))
            }
        };
        match self {
            R::R0(r) => r.recv(f),
            R::R1(r) => r.recv(f),
            R::R2(r) => r.recv(f),
            R::R3(r) => r.recv(f),
            R::R4(r) => r.recv(f),
        }
        got
    }
    fn channels(&self) -> usize {
        match self {
            R::R0(r) => r.channels(),
            R::R1(r) => r.channels(),
            R::R2(r) => r.channels(),
            R::R3(r) => r.channels(),
            R::R4(r) => r.channels(),
        }
    }
}

fn log(l: &mut ArLogSender, p: &[Value]) {
    let q = |k: usize| P(p[k].clone());
    match p.len() {
        0 => rt_log!(l;),
        1 => rt_log!(l; q(0)),
        2 => rt_log!(l; q(0), q(1)),
        3 => rt_log!(l; q(0), q(1), q(2),),
        4 => rt_log!(l; q(0), q(1), q(2), q(3)),
        _ => rt_log!(l; q(0), q(1), q(2), q(3), q(4)),
    }
}

pub fn run_script(evs: &[Value], mut emit: impl FnMut(Value)) {
    let mut recv = Some(R::R0(ArLogReceiver::new()));
    let mut senders: Vec<ArLogSender> = Vec::new();
    let mut probes: std::collections::HashMap<i64, Probe> = Default::default();
    for e in evs {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut o = e.clone();
            match s(&e["ev"]) {
                "reset" => {
                    for c in arr(&e["caps"]) {
                        let (s, r) = recv.take().unwrap().add(i(c) as usize);
                        recv = Some(r);
                        senders.extend(s);
                    }
                }
                "add" => {
                    let (s, r) = recv.take().unwrap().add(i(&e["cap"]) as usize);
                    recv = Some(r);
                    senders.extend(s);
                    o["nch"] = json!(recv.as_ref().unwrap().channels());
                }
                // a sender of which a LogProbe makes use
                "probe" => {
                    let (s, r) = recv.take().unwrap().add(i(&e["cap"]) as usize);
                    recv = Some(r);
                    let (sr, bs) = (i(&e["sr"]) as u32, i(&e["bs"]) as usize);
                    let mut p = util::LogProbe::new(Box::leak(e["name"].as_str().unwrap().to_string().into_boxed_str()));
                    UGen::init(&mut p, sr, bs);
                    probes.insert(senders.len() as i64, Probe(p, AudioCtx::new(sr, bs, s?), bs));
                    senders.push(ArLogSender::non_rt());
                }
                "blk" => {
                    let vals: Vec<f64> = arr(&e["vals"]).iter().map(|v| v.as_str().unwrap().parse().unwrap()).collect();
                    probes.get_mut(&i(&e["s"]))?.block(&vals);
                }
                "log" => {
                    log(senders.get_mut(i(&e["s"]) as usize)?, arr(&e["parts"]));
                    o["nch"] = json!(recv.as_ref().unwrap().channels());
                }
                "send" => senders.get_mut(i(&e["s"]) as usize)?.send(ArLogMessage::from(P(e["part"].clone()))),
                "recv" => o["got"] = Value::from(recv.as_mut().unwrap().recv()),
                "conc" => {
                    let (l, mut r) = R::R0(ArLogReceiver::new()).add(i(&e["cap"]) as usize);
                    let mut l = l.unwrap();
                    let sent = arr(&e["sent"]).to_vec();
                    let t = std::thread::spawn(move || {
                        for m in sent {
                            log(&mut l, arr(&m));
                        }
                    });
                    let mut got = Vec::new();
                    while !t.is_finished() {
                        got.extend(r.recv());
                    }
                    t.join().unwrap();
                    got.extend(r.recv());
                    o["got"] = Value::from(got);
                }
                _ => (),
            }
            Some(o)
        }));
        match r {
            Ok(Some(o)) => emit(o),
            Ok(None) => (),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                emit(json!({"ev": "panic", "msg": m, "of": e}));
                return;
            }
        }
    }
}
