//! Accesses to blocks and windows into them: `kharness block SCRIPTS TRACE`. A script starts with
//! {"ev":"reset","kind","ch","bs","rows"}.
use knaster_graph::block::{RawAggregateBlock, RawAggregateBlockRead, RawContiguousBlock};
use knaster_graph::typenum::*;
use knaster_graph::{Block, BlockRead, PartialBlock, StaticBlock, VecBlock};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

const GUARD: f64 = -77.;
const PAD: usize = 8;

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn u(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
fn floats(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()
}
fn ints(v: &[f64]) -> Value {
    v.iter().map(|x| *x as i64).collect::<Vec<_>>().into()
}
fn message(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()
}

struct Run<'a> {
    evs: &'a [Value],
    at: usize,
    emit: &'a mut dyn FnMut(Value),
    over: bool,
}
impl<'a> Run<'a> {
    fn next(&mut self) -> Option<&'a Value> {
        if self.over {
            return None;
        }
        self.at += 1;
        self.evs.get(self.at - 1)
    }
    fn tell(&mut self, e: &Value, shape: Option<(usize, usize)>, r: Result<Option<Value>, Box<dyn std::any::Any + Send>>) {
        let mut o = e.clone();
        match r {
            Ok(y) => {
                if let Some(y) = y {
                    o["y"] = y;
                }
                if let Some((c, n)) = shape {
                    o["shape"] = json!([c, n]);
                }
                (self.emit)(o);
            }
            Err(p) => {
                if s(&e["ev"]) == "beyond" {
                    o["y"] = json!("panic");
                    (self.emit)(o);
                } else {
                    (self.emit)(json!({"ev": "panic", "msg": message(p), "of": e}));
                    self.over = true;
                }
            }
        }
    }
}

fn look<B: BlockRead<Sample = f64>>(b: &B, e: &Value) -> Option<Value> {
    match s(&e["ev"]) {
        "read" => Some(json!(b.read(u(&e["c"]), u(&e["f"])) as i64)),
        "slice" => Some(ints(b.channel_as_slice(u(&e["c"])))),
        "beyond" => {
            match s(&e["op"]) {
                "slice" => drop(b.channel_as_slice(u(&e["c"])).len()),
                _ => drop(b.read(u(&e["c"]), u(&e["f"]))),
            }
            Some(json!("answer"))
        }
        "all" => Some((0..b.channels()).map(|c| ints(b.channel_as_slice(c))).collect::<Vec<_>>().into()),
        _ => None,
    }
}
fn change<B: Block<Sample = f64>>(b: &mut B, e: &Value) -> Option<Value> {
    match s(&e["ev"]) {
        "write" => {
            b.write(e["v"].as_f64().unwrap(), u(&e["c"]), u(&e["f"]));
            None
        }
        "fill" => {
            b.channel_as_slice_mut(u(&e["c"])).copy_from_slice(&floats(&e["vs"]));
            None
        }
        "iter" => {
            // all of the slices at the same time
            let mut chans: Vec<&mut [f64]> = b.iter_mut().collect();
            let y = chans.iter().map(|c| ints(c)).collect::<Vec<_>>();
            for (c, row) in chans.iter_mut().zip(e["rows"].as_array().unwrap()) {
                c.copy_from_slice(&floats(row));
            }
            Some(y.into())
        }
        "beyond" if s(&e["op"]) == "write" => {
            b.write(1., u(&e["c"]), u(&e["f"]));
            Some(json!("answer"))
        }
        _ => look(b, e),
    }
}

macro_rules! level {
    ($name:ident $read:ident $next:ident $rnext:ident) => {
        fn $name<B: Block<Sample = f64>>(b: &mut B, run: &mut Run) {
            while let Some(e) = run.next() {
                match s(&e["ev"]) {
                    "window" if u(&e["w"]) == 1 => {
                        let mut p = b.partial_mut(u(&e["off"]), u(&e["len"]));
                        run.tell(e, Some((Block::channels(&p), Block::block_size(&p))), Ok(None));
                        $next(&mut p, run);
                    }
                    "window" => {
                        let p = b.partial(u(&e["off"]), u(&e["len"]));
                        run.tell(e, Some((p.channels(), p.block_size())), Ok(None));
                        $rnext(&p, run);
                    }
                    "back" => {
                        run.tell(e, None, Ok(None));
                        return;
                    }
                    _ => {
                        let r = catch_unwind(AssertUnwindSafe(|| change(b, e)));
                        run.tell(e, Some((Block::channels(b), Block::block_size(b))), r);
                    }
                }
            }
        }
        fn $read<B: BlockRead<Sample = f64>>(b: &B, run: &mut Run) {
            while let Some(e) = run.next() {
                match s(&e["ev"]) {
                    "window" => {
                        let p = PartialBlock::from_block(b, u(&e["off"]), u(&e["len"]));
                        run.tell(e, Some((p.channels(), p.block_size())), Ok(None));
                        $rnext(&p, run);
                    }
                    "back" => {
                        run.tell(e, None, Ok(None));
                        return;
                    }
                    _ => {
                        let r = catch_unwind(AssertUnwindSafe(|| look(b, e)));
                        run.tell(e, Some((b.channels(), b.block_size())), r);
                    }
                }
            }
        }
    };
}
fn w4<B: Block<Sample = f64>>(_: &mut B, _: &mut Run) {}
fn r4<B: BlockRead<Sample = f64>>(_: &B, _: &mut Run) {}
level!(w3 r3 w4 r4);
level!(w2 r2 w3 r3);
level!(w1 r1 w2 r2);
level!(w0 r0 w1 r1);

pub fn run_script(evs: &[Value], mut emit: impl FnMut(Value)) {
    let e = &evs[0];
    emit(e.clone());
    let (ch, bs) = (u(&e["ch"]), u(&e["bs"]));
    let mut run = Run { evs: &evs[1..], at: 0, emit: &mut emit, over: false };
    let mut guards = true;
    macro_rules! stat {
        ($($c:literal $C:ident $b:literal $B:ident,)*) => { match (ch, bs) { $(($c, $b) => w0(&mut StaticBlock::<f64, $C, $B>::new(), &mut run),)* _ => panic!("no such block") } };
    }
    match s(&e["kind"]) {
        "vec" => w0(&mut VecBlock::<f64>::new(ch, bs), &mut run),
        "static" => stat!(1 U1 2 U2, 1 U1 3 U3, 1 U1 4 U4, 2 U2 2 U2, 2 U2 3 U3, 2 U2 4 U4, 3 U3 2 U2, 3 U3 3 U3, 3 U3 4 U4,),
        "rawc" => {
            let mut mem = vec![GUARD; ch * bs + 2 * PAD];
            for c in 0..ch {
                mem[PAD + c * bs..PAD + (c + 1) * bs].copy_from_slice(&floats(&e["rows"][c]));
            }
            w0(&mut unsafe { RawContiguousBlock::new(mem.as_mut_ptr().add(PAD), ch, bs) }, &mut run);
            guards = mem[..PAD].iter().chain(&mem[PAD + ch * bs..]).all(|x| *x == GUARD);
        }
        k => {
            let mut mems = Vec::new();
            for c in 0..ch {
                let mut mem = vec![GUARD; bs + 2 * PAD];
                mem[PAD..PAD + bs].copy_from_slice(&floats(&e["rows"][c]));
                mems.push(mem);
            }
            let ptrs: Vec<*mut f64> = mems.iter_mut().map(|m| unsafe { m.as_mut_ptr().add(PAD) }).collect();
            if k == "agg" {
                w0(&mut unsafe { RawAggregateBlock::new(&ptrs, bs) }, &mut run);
            } else {
                let ptrs: Vec<*const f64> = ptrs.iter().map(|p| *p as *const f64).collect();
                r0(&unsafe { RawAggregateBlockRead::new(&ptrs, bs) }, &mut run);
            }
            guards = mems.iter().all(|m| m[..PAD].iter().chain(&m[PAD + bs..]).all(|x| *x == GUARD));
        }
    }
    emit(json!({"ev": "guards", "y": guards as i64}));
}
