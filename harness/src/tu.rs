//! Integer valued test UGens.
use crate::rec;
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::typenum::*;
use knaster_graph::*;
use std::marker::PhantomData;

pub const MOD: i64 = 1009;

pub struct TU<I, O> {
    pub id: i64,
    base: i64,
    tick: i64,
    cnt: i64,
    a: i64,
    b: i64,
    trig: i64,
    done: i64,
    _p: PhantomData<fn(I, O)>,
}
impl<I, O> TU<I, O> {
    pub fn new(id: i64, base: i64, tick: i64) -> Self {
        Self { id, base, tick, cnt: 0, a: 0, b: 0, trig: 0, done: -1, _p: PhantomData }
    }
    fn frame(&mut self, v: i64, ch: usize) -> f32 {
        let x = self.base + 10 * ch as i64 + self.a + 2 * self.b + 5 * self.trig + self.tick * self.cnt + v;
        (x.rem_euclid(MOD)) as f32
    }
}
impl<I, O> TU<I, O> {
    /// parameter d: done, or free this node, or free its graph
    fn finish(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        match std::mem::replace(&mut self.done, -1) {
            -1 => {}
            100 => flags.mark_remove_self(ctx),
            d if d >= 200 => flags.mark_remove_parent(d as u32 - 200),
            d => flags.mark_done(d as u32),
        }
    }
}
impl<I, O> Drop for TU<I, O> {
    fn drop(&mut self) {
        let a = rec::is_audio();
        let id = self.id;
        rec::with(|r| r.drops.push((id, a)));
    }
}
fn get_slice_addr<B: BlockRead<Sample = f32> + ?Sized>(b: &B, ch: usize) -> usize {
    b.channel_as_slice(ch).as_ptr() as usize
}
impl<I: Size, O: Size> UGen for TU<I, O> {
    type Sample = f32;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U4;
    fn init(&mut self, sample_rate: u32, block_size: usize) {
        let id = self.id;
        rec::with(|r| r.inits.push((id, sample_rate as i64, block_size as i64)));
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<f32, I>) -> Frame<f32, O> {
        let mut v = 0;
        for j in 0..I::USIZE {
            v += (j as i64 + 1) * rec::int(input[j] as f64);
        }
        let id = self.id;
        let clock = ctx.frame_clock() as i64;
        let bs = ctx.block_size();
        rec::with(|r| {
            match r.runs.last_mut() {
                Some((i, vs)) if *i == id && vs.len() < bs => vs.push(v),
                _ => r.runs.push((id, vec![v])),
            };
            let _ = clock;
        });
        let mut out = Frame::<f32, O>::default();
        for c in 0..O::USIZE {
            out[c] = self.frame(v, c);
        }
        self.cnt += 1;
        self.finish(ctx, flags);
        out
    }
    fn process_block<IB, OB>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &IB, output: &mut OB)
    where
        IB: BlockRead<Sample = f32> + ?Sized,
        OB: Block<Sample = f32> + ?Sized,
    {
        let n = ctx.frames_to_process();
        let bs = ctx.block_size();
        let id = self.id;
        let (clock, off) = (ctx.frame_clock() as i64, ctx.block_start_offset() as i64);
        rec::with(|r| {
            r.calls.push((id, clock, off, n as i64));
            if n == bs {
                let ins = (0..I::USIZE).map(|c| get_slice_addr(input, c)).collect();
                let outs = (0..O::USIZE).map(|c| output.channel_as_slice_mut(c).as_ptr() as usize).collect();
                r.bufs.push((id, ins, outs));
            }
            if input.channels() != I::USIZE || output.channels() != O::USIZE {
                r.bad.push(format!("channels of {id}"));
            }
            if input.block_size() < n || output.block_size() < n {
                r.bad.push(format!("block size of {id}"));
            }
        });
        for f in 0..n {
            let mut v = 0;
            for j in 0..I::USIZE {
                v += (j as i64 + 1) * rec::int(input.read(j, f) as f64);
            }
            rec::with(|r| match r.runs.last_mut() {
                Some((i, vs)) if *i == id && vs.len() < bs && (f > 0 || off > 0) => vs.push(v),
                _ => r.runs.push((id, vec![v])),
            });
            for c in 0..O::USIZE {
                let x = self.frame(v, c);
                output.write(x, c, f);
            }
            self.cnt += 1;
        }
        self.finish(ctx, flags);
        crate::exec::mid_run(id);
    }
    fn param_descriptions() -> NumericArray<&'static str, U4> {
        ["a", "b", "t", "d"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U4> {
        [
            ParameterHint::infinite_float(),
            ParameterHint::infinite_float(),
            ParameterHint::Trigger,
            ParameterHint::from_pinteger_enum::<Done>(),
        ]
        .into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        let id = self.id;
        let (k, v) = match value {
            ParameterValue::Float(f) => ("f", rec::int(f as f64)),
            ParameterValue::Trigger => ("t", 0),
            ParameterValue::Integer(i) => ("i", usize::from(i) as i64),
            ParameterValue::Smoothing(x, _) => ("s", crate::exec::smoothing_code(x)),
            #[allow(unreachable_patterns)]
            _ => ("x", 0),
        };
        rec::with(|r| r.applies.push((id, index as i64, k.to_string(), v)));
        match (index, k) {
            (0, "f") => self.a = v,
            (1, "f") => self.b = v,
            (2, "t") => self.trig += 1,
            (3, "i") => self.done = v,
            _ => {}
        }
    }
    fn set_delay_within_block_for_param(&mut self, _ctx: &mut AudioCtx, index: usize, delay: u16) {
        let id = self.id;
        rec::with(|r| r.delays.push((id, index as i64, delay as i64)));
    }
}
