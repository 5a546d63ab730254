//! The UGens of the library, by name
use crate::exec::{arr, i, s};
use crate::ug::{Obj, num};
use knaster_graph::dsp::buffer::Buffer;
use knaster_graph::envelopes::*;
use knaster_graph::math::*;
use knaster_graph::typenum::*;
use knaster_graph::*;
use serde_json::Value;

/// Adapts a StaticSampleDelay, which isn't a UGen: one sample at a time in `process`, blocks in `process_block`
struct Ssd<F: Float>(delay::StaticSampleDelay<F>);
impl<F: Float> UGen for Ssd<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U1;
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<F, U1>) -> Frame<F, U1> {
        let o = self.0.read();
        self.0.write_and_advance(input[0]);
        [o].into()
    }
    fn process_block<IB, OB>(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: &IB, output: &mut OB)
    where
        IB: BlockRead<Sample = F> + ?Sized,
        OB: Block<Sample = F> + ?Sized,
    {
        let n = ctx.frames_to_process();
        let x: Vec<F> = (0..n).map(|f| input.read(0, f)).collect();
        let mut y = vec![F::ZERO; n];
        self.0.process(&x, &mut y, n);
        for f in 0..n {
            output.write(y[f], 0, f);
        }
    }
    fn param_hints() -> knaster_graph::numeric_array::NumericArray<ParameterHint, U1> {
        [ParameterHint::new_integer((PInteger::ZERO, PInteger::MAX), |h| h)].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, _index: usize, value: ParameterValue) {
        if let ParameterValue::Integer(v) = value {
            self.0.set_delay_length(v.0);
        }
    }
}
fn floats<F: Float>(v: &Value, k: &str) -> Vec<F> {
    let sc = v["bsc"].as_f64().unwrap_or(1.);
    arr(v, k).iter().map(|x| F::new(x.as_f64().unwrap() / sc)).collect()
}
/// A UGen of either precision as an object
trait Boxed: Float + Send {
    fn bx<U: UGen<Sample = Self> + 'static>(u: U) -> Box<dyn Obj>;
}
impl Boxed for f64 {
    fn bx<U: UGen<Sample = f64> + 'static>(u: U) -> Box<dyn Obj> {
        Box::new(u)
    }
}
impl Boxed for f32 {
    fn bx<U: UGen<Sample = f32> + 'static>(u: U) -> Box<dyn Obj> {
        Box::new(Single(u))
    }
}
/// A single precision UGen between double precision signals
struct Single<U>(U);
impl<U: UGen<Sample = f32>> UGen for Single<U> {
    type Sample = f64;
    type Inputs = U::Inputs;
    type Outputs = U::Outputs;
    type Parameters = U::Parameters;
    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.0.init(sample_rate, block_size)
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<f64, U::Inputs>) -> Frame<f64, U::Outputs> {
        let mut x = Frame::<f32, U::Inputs>::default();
        for c in 0..U::Inputs::USIZE {
            x[c] = input[c] as f32;
        }
        let y = self.0.process(ctx, flags, x);
        let mut out = Frame::<f64, U::Outputs>::default();
        for c in 0..U::Outputs::USIZE {
            out[c] = y[c] as f64;
        }
        out
    }
    fn process_block<IB, OB>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &IB, output: &mut OB)
    where
        IB: BlockRead<Sample = f64> + ?Sized,
        OB: Block<Sample = f64> + ?Sized,
    {
        let n = ctx.frames_to_process();
        let mut x = VecBlock::<f32>::new(U::Inputs::USIZE, n);
        let mut y = VecBlock::<f32>::new(U::Outputs::USIZE, n);
        for f in 0..n {
            for c in 0..U::Inputs::USIZE {
                x.write(input.read(c, f) as f32, c, f);
            }
            // what is left in the output isn't to matter
            for c in 0..U::Outputs::USIZE {
                y.write(77., c, f);
            }
        }
        self.0.process_block(ctx, flags, &x, &mut y);
        for f in 0..n {
            for c in 0..U::Outputs::USIZE {
                output.write(BlockRead::read(&y, c, f) as f64, c, f);
            }
        }
    }
    fn param_descriptions() -> knaster_graph::numeric_array::NumericArray<&'static str, U::Parameters> {
        U::param_descriptions()
    }
    fn param_hints() -> knaster_graph::numeric_array::NumericArray<ParameterHint, U::Parameters> {
        U::param_hints()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.0.param_apply(ctx, index, value)
    }
}
pub fn make(v: &Value) -> Option<Box<dyn Obj>> {
    if v["f32"].is_null() { make_in::<f64>(v) } else { make_in::<f32>(v) }
}
fn make_in<F: Boxed>(v: &Value) -> Option<Box<dyn Obj>> {
    let (a64, b64) = (num(v, "a"), num(v, "b"));
    let (a, b) = (F::new(a64), F::new(b64));
    let secs = |k: &str| Seconds::from_secs_f64(num(v, k));
    Some(match s(v, "t") {
        "const" => F::bx(util::Constant::<F>::new(a)),
        "dot" => F::bx(util::DoneOnTrig::<F>::new()),
        "pan" => F::bx(pan::Pan2::<F>::new(a64 as f32)),
        "lim" => F::bx(dynamics::SafetyLimiter::<F>::new()),
        "add" => F::bx(MathUGen::<F, U1, Add>::new()),
        "sub" => F::bx(MathUGen::<F, U1, Sub>::new()),
        "mul" => F::bx(MathUGen::<F, U1, Mul>::new()),
        "div" => F::bx(MathUGen::<F, U1, Div>::new()),
        "pow" => F::bx(MathUGen::<F, U1, math::Pow>::new()),
        "add2" => F::bx(MathUGen::<F, U2, Add>::new()),
        "sub2" => F::bx(MathUGen::<F, U2, Sub>::new()),
        "add3" => F::bx(MathUGen::<F, U3, Add>::new()),
        "sub4" => F::bx(MathUGen::<F, U4, Sub>::new()),
        "mul3" => F::bx(MathUGen::<F, U3, Mul>::new()),
        "div2" => F::bx(MathUGen::<F, U2, Div>::new()),
        "ceil" => F::bx(Math1UGen::<F, Ceil>::new()),
        "floor" => F::bx(Math1UGen::<F, Floor>::new()),
        "trunc" => F::bx(Math1UGen::<F, Trunc>::new()),
        "fract" => F::bx(Math1UGen::<F, Fract>::new()),
        "sqrt" => F::bx(Math1UGen::<F, math::Sqrt>::new()),
        "exp" => F::bx(Math1UGen::<F, math::Exp>::new()),
        "sinwt" => F::bx(osc::SinWt::<F>::new(a)),
        "sinnum" => F::bx(osc::SinNumeric::<F>::new(a)),
        "phasor" => F::bx(osc::Phasor::<F>::new(a64)),
        "olpf" => F::bx(onepole::OnePoleLpf::<F>::new(a)),
        "ohpf" => F::bx(onepole::OnePoleHpf::<F>::new()),
        "svf" => F::bx(svf::SvfFilter::<F>::new(
            svf::SvfFilterType::from(PInteger::from(i(v, "k") as usize % 9)),
            a,
            b,
            F::new(v["g"].as_f64().unwrap_or(0.)),
        )),
        "blep" => F::bx(polyblep::PolyBlep::<F>::new(polyblep::Waveform::from(PInteger::from(i(v, "k") as usize)), a)),
        "sdelay" => F::bx(delay::SampleDelay::<F>::new(secs("a"))),
        "adelay" => F::bx(delay::AllpassDelay::<F>::new(secs("a"))),
        "fdelay" => F::bx(delay::AllpassFeedbackDelay::<F>::new(secs("a"))),
        "ssd" => F::bx(Ssd(delay::StaticSampleDelay::new(i(v, "n") as usize))),
        "asr" => F::bx(EnvAsr::<F>::new(a, b)),
        "are" => F::bx(EnvAr::<F>::new(a, b)),
        "env" => {
            let q = v["q"].as_f64().unwrap_or(1.);
            let segs = arr(v, "segs").iter().map(|x| EnvelopeSegment::new(x[0].as_f64().unwrap() / q, x[1].as_f64().unwrap() / q)).collect();
            F::bx(Envelope::<F>::new(a64, segs).looping(i(v, "loop") != 0).time_scale(b64))
        }
        "buf1" | "buf2" => {
            let ch = if s(v, "t") == "buf1" { 1 } else { 2 };
            let data = Buffer::from_vec_interleaved(floats(v, "data"), ch, v["bsr"].as_f64().unwrap());
            if ch == 1 {
                let u = buffer::BufferReader::<F, U1>::new(data, a64, i(v, "loop") != 0);
                F::bx(if i(v, "st") > 0 { u.start_at(secs("st")) } else { u })
            } else {
                let u = buffer::BufferReader::<F, U2>::new(data, a64, i(v, "loop") != 0);
                F::bx(if i(v, "st") > 0 { u.start_at(secs("st")) } else { u })
            }
        }
        "clo0" => F::bx(closure::ugen::<F, U0, U1>({
            let mut n = F::ZERO;
            move |_: &mut AudioCtx, _: &mut UGenFlags| {
                n += F::ONE;
                n
            }
        })),
        "clo2" => F::bx(closure::ugen::<F, U2, U1>(move |_: &mut AudioCtx, _: &mut UGenFlags, x: [F; 2]| [x[0] + F::new(3f64) * x[1]])),
        "clo1" => F::bx(closure::ugen::<F, U1, U2>(move |_: &mut AudioCtx, _: &mut UGenFlags, x: [F; 1]| [x[0] + F::ONE, x[0] + x[0]])),
        _ => return None,
    })
}
