//! Runs single UGens (bare, or in stacks of wrappers) outside of a graph: `kharness ug SCRIPTS TRACE`.
//! A script starts with {"ev":"reset","sr","bs","u":<ugen>}; a ugen is {"t":type,...,"in":<ugen>}.
use crate::exec::{arr, i, quiet, s};
use knaster_graph::log::ArLogSender;
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::typenum::*;
use knaster_graph::wrappers_core::*;
use knaster_graph::*;
use serde_json::{Value, json};
use std::cell::RefCell;

thread_local! {
    static BAD: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static POS: RefCell<usize> = const { RefCell::new(0) };
}
pub fn bad(m: String) {
    BAD.with(|b| b.borrow_mut().push(m));
}

/// A UGen whose type is erased
pub trait Obj {
    fn chans(&self) -> (usize, usize, usize);
    fn init(&mut self, sr: u32, bs: usize);
    fn frame(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &[f64]) -> Vec<f64>;
    fn block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &(dyn BlockRead<Sample = f64> + '_), output: &mut PartialBlockMut<VecBlock<f64>>);
    fn apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue);
    unsafe fn ar(&mut self, ctx: &mut AudioCtx, index: usize, buffer: *const f64);
    fn delay(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16);
    fn set(&mut self, ctx: &mut AudioCtx, param: Param, value: ParameterValue) -> Result<(), ParameterError>;
    fn descriptions(&self) -> Vec<&'static str>;
    fn types(&self) -> Vec<&'static str>;
}
fn letter(t: ParameterType) -> &'static str {
    match t {
        ParameterType::Float => "f",
        ParameterType::Trigger => "t",
        ParameterType::Integer => "i",
        ParameterType::Bool => "b",
    }
}
impl<U: UGen<Sample = f64>> Obj for U {
    fn chans(&self) -> (usize, usize, usize) {
        (U::Inputs::USIZE, U::Outputs::USIZE, U::Parameters::USIZE)
    }
    fn init(&mut self, sr: u32, bs: usize) {
        UGen::init(self, sr, bs)
    }
    fn frame(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &[f64]) -> Vec<f64> {
        let mut f = Frame::<f64, U::Inputs>::default();
        for c in 0..U::Inputs::USIZE {
            f[c] = input[c];
        }
        self.process(ctx, flags, f).iter().copied().collect()
    }
    fn block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &(dyn BlockRead<Sample = f64> + '_), output: &mut PartialBlockMut<VecBlock<f64>>) {
        self.process_block(ctx, flags, input, output)
    }
    fn apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.param_apply(ctx, index, value)
    }
    unsafe fn ar(&mut self, ctx: &mut AudioCtx, index: usize, buffer: *const f64) {
        unsafe { self.set_ar_param_buffer(ctx, index, buffer) }
    }
    fn delay(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
        self.set_delay_within_block_for_param(ctx, index, delay)
    }
    fn set(&mut self, ctx: &mut AudioCtx, param: Param, value: ParameterValue) -> Result<(), ParameterError> {
        self.param(ctx, param, value)
    }
    fn descriptions(&self) -> Vec<&'static str> {
        U::param_descriptions().iter().copied().collect()
    }
    fn types(&self) -> Vec<&'static str> {
        U::param_types().iter().map(|t| letter(*t)).collect()
    }
}
/// An erased UGen as a UGen again, to be put into a wrapper
pub struct Ob<I, O, P>(Box<dyn Obj>, std::marker::PhantomData<fn(I, O, P)>);
impl<I: Size, O: Size, P: Size> UGen for Ob<I, O, P> {
    type Sample = f64;
    type Inputs = I;
    type Outputs = O;
    type Parameters = P;
    fn init(&mut self, sr: u32, bs: usize) {
        self.0.init(sr, bs)
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<f64, I>) -> Frame<f64, O> {
        let out = self.0.frame(ctx, flags, &input);
        let mut f = Frame::<f64, O>::default();
        for c in 0..O::USIZE {
            f[c] = out[c];
        }
        f
    }
    fn process_block<IB, OB>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &IB, output: &mut OB)
    where
        IB: BlockRead<Sample = f64> + ?Sized,
        OB: Block<Sample = f64> + ?Sized,
    {
        let n = ctx.frames_to_process();
        if input.channels() != I::USIZE || output.channels() != O::USIZE || (I::USIZE > 0 && input.block_size() < n) || output.block_size() < n {
            bad("shape of a block".into());
        }
        let mut a = VecBlock::<f64>::new(I::USIZE, n);
        let mut b = VecBlock::<f64>::new(O::USIZE, n + 2);
        for c in 0..I::USIZE {
            for f in 0..n {
                a.write(input.read(c, f), c, f);
            }
        }
        fill(&mut b);
        self.0.block(ctx, flags, &a, &mut b.partial_mut(1, n));
        check_pad(&b, 1, n);
        for c in 0..O::USIZE {
            for f in 0..n {
                output.write(Block::read(&b, c, f + 1), c, f);
            }
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, P> {
        NumericArray::default()
    }
    fn param_hints() -> NumericArray<ParameterHint, P> {
        (0..P::USIZE).map(|_| ParameterHint::infinite_float()).collect()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.0.apply(ctx, index, value)
    }
    unsafe fn set_ar_param_buffer(&mut self, ctx: &mut AudioCtx, index: usize, buffer: *const f64) {
        unsafe { self.0.ar(ctx, index, buffer) }
    }
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
        self.0.delay(ctx, index, delay)
    }
}

fn rd(b: &VecBlock<f64>, c: usize, f: usize) -> f64 {
    Block::read(b, c, f)
}
const PAD: f64 = 777.25;
fn fill(b: &mut VecBlock<f64>) {
    for c in b.iter_mut() {
        c.fill(PAD);
    }
}
/// Nothing outside of the part may be written
fn check_pad(b: &VecBlock<f64>, at: usize, n: usize) {
    for c in 0..Block::channels(b) {
        for f in 0..Block::block_size(b) {
            if (f < at || f >= at + n) && Block::read(b, c, f) != PAD {
                bad("wrote outside of the partial block".into());
                return;
            }
        }
    }
}

/// The innermost UGen: two inputs, two outputs, parameters a, b (float) and t (trigger: counts, and marks it as done)
struct Tw {
    base: f64,
    tick: f64,
    cnt: f64,
    a: f64,
    b: f64,
    t: f64,
    done: bool,
}
impl Tw {
    fn new(v: &Value) -> Self {
        Tw { base: num(v, "b"), tick: num(v, "tk"), cnt: 0., a: 0., b: 0., t: 0., done: false }
    }
    fn out(&mut self, x: &[f64; 2]) -> [f64; 2] {
        let v = self.base + self.a + 2. * self.b + 5. * self.t + self.tick * self.cnt + x[0] + 2. * x[1];
        self.cnt += 1.;
        POS.with(|p| *p.borrow_mut() += 1);
        [v, v + 10.]
    }
}
impl UGen for Tw {
    type Sample = f64;
    type Inputs = U2;
    type Outputs = U2;
    type Parameters = U3;
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<f64, U2>) -> Frame<f64, U2> {
        if std::mem::take(&mut self.done) {
            flags.mark_done(ctx.block_start_offset() as u32);
        }
        self.out(&[input[0], input[1]]).into()
    }
    fn process_block<IB, OB>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &IB, output: &mut OB)
    where
        IB: BlockRead<Sample = f64> + ?Sized,
        OB: Block<Sample = f64> + ?Sized,
    {
        let pos = POS.with(|p| *p.borrow());
        if ctx.block_start_offset() != pos {
            bad(format!("offset {} at frame {pos}", ctx.block_start_offset()));
        }
        if std::mem::take(&mut self.done) {
            flags.mark_done(ctx.block_start_offset() as u32);
        }
        for f in 0..ctx.frames_to_process() {
            let o = self.out(&[input.read(0, f), input.read(1, f)]);
            output.write(o[0], 0, f);
            output.write(o[1], 1, f);
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, U3> {
        ["a", "b", "t"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U3> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float(), ParameterHint::Trigger].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        match (index, value) {
            (0, ParameterValue::Float(v)) => self.a = v,
            (1, ParameterValue::Float(v)) => self.b = v,
            (2, ParameterValue::Trigger) => {
                self.t += 1.;
                self.done = true;
            }
            _ => {}
        }
    }
}

/// a number: v[k] / v.q
pub fn num(v: &Value, k: &str) -> f64 {
    v[k].as_f64().unwrap_or(0.) / v["q"].as_f64().unwrap_or(1.)
}
fn wrap<I: Size, O: Size, P: Size + std::ops::Add<B1>>(v: &Value, inner: Box<dyn Obj>) -> Box<dyn Obj>
where
    Add1<P>: Size,
{
    let u = Ob::<I, O, P>(inner, std::marker::PhantomData);
    let x = num(v, "v");
    match s(v, "t") {
        "mul" => Box::new(u.wr_mul(x)),
        "add" => Box::new(u.wr_add(x)),
        "sub" => Box::new(u.wr_sub(x)),
        "vsub" => Box::new(u.wr_v_sub_gen(x)),
        "div" => Box::new(u.wr_div(x)),
        "vdiv" => Box::new(u.wr_v_div_gen(x)),
        "powf" => Box::new(u.wr_powf(x)),
        "powi" => Box::new(u.wr_powi(x as i32)),
        "clo" => Box::new(u.wr(move |y| 2. * y + x)),
        "prec" => Box::new(u.precise_timing::<3>()),
        "ar" => Box::new(u.ar_params()),
        "smooth" => Box::new(u.smooth_params()),
        x => panic!("HARNESS: wrapper {x}"),
    }
}
/// The layers of a stack without type erasure in between, as they are used outside of this harness: at most two wrappers
fn typed(v: &Value) -> Box<dyn Obj> {
    let mut ls = vec![];
    let mut u = v;
    while !u["in"].is_null() {
        ls.insert(0, u);
        u = &u["in"];
    }
    if s(u, "t") == "tw" { typed2(&ls, Tw::new(u)) } else { stack(u) }
}
fn typed2<U>(ls: &[&Value], u: U) -> Box<dyn Obj>
where
    U: UGen<Sample = f64> + 'static,
    U::Parameters: std::ops::Add<B1>,
    Add1<U::Parameters>: Size + std::ops::Add<B1>,
    Add1<Add1<U::Parameters>>: Size,
{
    if ls.is_empty() {
        return Box::new(u);
    }
    let x = num(ls[0], "v");
    let ls2 = &ls[1..];
    match s(ls[0], "t") {
        "mul" => typed1(ls2, u.wr_mul(x)),
        "add" => typed1(ls2, u.wr_add(x)),
        "sub" => typed1(ls2, u.wr_sub(x)),
        "vsub" => typed1(ls2, u.wr_v_sub_gen(x)),
        "div" => typed1(ls2, u.wr_div(x)),
        "vdiv" => typed1(ls2, u.wr_v_div_gen(x)),
        "powf" => typed1(ls2, u.wr_powf(x)),
        "powi" => typed1(ls2, u.wr_powi(x as i32)),
        "clo" => typed1(ls2, u.wr(move |y| 2. * y + x)),
        "prec" => typed1(ls2, u.precise_timing::<3>()),
        "ar" => typed1(ls2, u.ar_params()),
        "smooth" => typed1(ls2, u.smooth_params()),
        x => panic!("HARNESS: wrapper {x}"),
    }
}
fn typed1<U>(ls: &[&Value], u: U) -> Box<dyn Obj>
where
    U: UGen<Sample = f64> + 'static,
    U::Parameters: std::ops::Add<B1>,
    Add1<U::Parameters>: Size,
{
    if ls.is_empty() {
        return Box::new(u);
    }
    let x = num(ls[0], "v");
    match s(ls[0], "t") {
        "mul" => Box::new(u.wr_mul(x)),
        "add" => Box::new(u.wr_add(x)),
        "sub" => Box::new(u.wr_sub(x)),
        "vsub" => Box::new(u.wr_v_sub_gen(x)),
        "div" => Box::new(u.wr_div(x)),
        "vdiv" => Box::new(u.wr_v_div_gen(x)),
        "powf" => Box::new(u.wr_powf(x)),
        "powi" => Box::new(u.wr_powi(x as i32)),
        "clo" => Box::new(u.wr(move |y| 2. * y + x)),
        "prec" => Box::new(u.precise_timing::<3>()),
        "ar" => Box::new(u.ar_params()),
        "smooth" => Box::new(u.smooth_params()),
        x => panic!("HARNESS: wrapper {x}"),
    }
}
fn stack(v: &Value) -> Box<dyn Obj> {
    if s(v, "t") == "tw" {
        return Box::new(Tw::new(v));
    }
    if v["in"].is_null() {
        return crate::lib_ugens::make(v).unwrap_or_else(|| panic!("HARNESS: UGen {v}"));
    }
    let inner = stack(&v["in"]);
    macro_rules! shapes {
        ($(($i:literal, $o:literal, $p:literal, $I:ty, $O:ty, $P:ty)),*) => {
            match inner.chans() {
                $(($i, $o, $p) => wrap::<$I, $O, $P>(v, inner),)*
                n => panic!("HARNESS: shape {n:?}"),
            }
        };
    }
    shapes!(
        (2, 2, 3, U2, U2, U3),
        (2, 2, 4, U2, U2, U4),
        (2, 2, 5, U2, U2, U5),
        (2, 2, 6, U2, U2, U6),
        (0, 1, 1, U0, U1, U1),
        (0, 1, 2, U0, U1, U2),
        (0, 1, 3, U0, U1, U3),
        (0, 1, 4, U0, U1, U4),
        (0, 1, 5, U0, U1, U5),
        (0, 1, 6, U0, U1, U6),
        (0, 1, 7, U0, U1, U7),
        (1, 1, 0, U1, U1, U0),
        (1, 1, 1, U1, U1, U1),
        (1, 1, 2, U1, U1, U2),
        (1, 1, 3, U1, U1, U3),
        (2, 1, 0, U2, U1, U0),
        (2, 1, 1, U2, U1, U1),
        (0, 2, 6, U0, U2, U6),
        (0, 2, 7, U0, U2, U7)
    )
}

fn value(e: &Value) -> ParameterValue {
    match s(e, "k") {
        "t" => ParameterValue::Trigger,
        "i" => ParameterValue::Integer(PInteger::from(i(e, "v") as usize)),
        "b" => ParameterValue::Bool(i(e, "v") != 0),
        "sn" => ParameterValue::Smoothing(ParameterSmoothing::None, Rate::BlockRate),
        "sb" => ParameterValue::Smoothing(ParameterSmoothing::Linear(num(e, "v") as f32), Rate::BlockRate),
        "sa" => ParameterValue::Smoothing(ParameterSmoothing::Linear(num(e, "v") as f32), Rate::AudioRate),
        _ => ParameterValue::Float(num(e, "v")),
    }
}
fn sample(v: i64, isc: f64) -> f64 {
    match v {
        1_000_000_007 => f64::NAN,
        1_000_000_009 => f64::INFINITY,
        -1_000_000_009 => f64::NEG_INFINITY,
        _ => v as f64 / isc,
    }
}
fn enc(sc: f64, x: f64) -> i64 {
    let y = x * sc;
    let n = y.round();
    if x.is_nan() {
        1_000_000_007
    } else if !y.is_finite() || n.abs() > 1e9 {
        1_000_000_009
    } else if (y - n).abs() > 1e-6 && sc <= 1. {
        1_000_000_008
    } else {
        n as i64
    }
}
pub struct Run {
    u: Box<dyn Obj>,
    /// the same UGen, run frame by frame
    r: Option<Box<dyn Obj>>,
    ctx: AudioCtx,
    bs: usize,
    clk: u64,
    sc: f64,
    isc: f64,
    ar: Vec<Vec<f64>>,
}
impl Run {
    fn new(e: &Value) -> Self {
        let make = if i(e, "typed") != 0 { typed } else { stack };
        let u = make(&e["u"]);
        let r = (i(e, "ref") != 0).then(|| make(&e["u"]));
        let (sr, bs) = (i(e, "sr") as u32, i(e, "bs") as usize);
        let ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
        let mut r = Run { u, r, ctx, bs, clk: 0, sc: e["sc"].as_f64().unwrap_or(1.), isc: e["isc"].as_f64().unwrap_or(1.), ar: vec![vec![0.; bs]; 8] };
        if i(e, "noinit") == 0 {
            r.u.init(sr, bs);
            if let Some(x) = &mut r.r {
                x.init(sr, bs);
            }
        }
        r
    }
    /// one event; returns what was observed
    fn event(&mut self, e: &Value) -> Value {
        let mut r = e.clone();
        match s(e, "ev") {
            "p" => {
                let k = i(e, "i") as usize;
                self.u.delay(&mut self.ctx, k, i(e, "d") as u16);
                self.u.apply(&mut self.ctx, k, value(e));
                if let Some(x) = &mut self.r {
                    x.delay(&mut self.ctx, k, i(e, "d") as u16);
                    x.apply(&mut self.ctx, k, value(e));
                }
            }
            "ar" => {
                let k = i(e, "i") as usize;
                let p = if i(e, "on") != 0 { self.ar[k].as_ptr() } else { std::ptr::null() };
                unsafe { self.u.ar(&mut self.ctx, k, p) };
                if let Some(x) = &mut self.r {
                    unsafe { x.ar(&mut self.ctx, k, p) };
                }
            }
            "blk" => {
                let (ni, no, _) = self.u.chans();
                let bs = self.bs;
                for a in arr(e, "ar") {
                    let k = a[0].as_i64().unwrap() as usize;
                    for f in 0..bs {
                        self.ar[k][f] = a[1][f].as_f64().unwrap();
                    }
                }
                let mut input = VecBlock::<f64>::new(ni, bs);
                for c in 0..ni {
                    for f in 0..bs {
                        input.write(sample(e["in"][c][f].as_i64().unwrap_or(0), self.isc), c, f);
                    }
                }
                let mut out = VecBlock::<f64>::new(no, bs + 2);
                fill(&mut out);
                POS.with(|p| *p.borrow_mut() = 0);
                let mut md = BlockMetadata::new(bs);
                md.set_frame_clock(self.clk);
                let mut dones = vec![];
                let mut rem = -1;
                let mut at = 0;
                let whole = vec![json!([bs, "b"])];
                let split = if arr(e, "split").is_empty() { &whole[..] } else { arr(e, "split") };
                let mut flags = UGenFlags::new();
                for p in split {
                    let n = p[0].as_u64().unwrap() as usize;
                    if p[1] == "f" {
                        for f in at..at + n {
                            self.ctx.block = md.make_partial(f, 1);
                            let x: Vec<f64> = (0..ni).map(|c| BlockRead::read(&input, c, f)).collect();
                            let o = self.u.frame(&mut self.ctx, &mut flags, &x);
                            for c in 0..no {
                                out.write(o[c], c, f + 1);
                            }
                            if let Some(d) = flags.done() {
                                dones.push(json!(d));
                                flags.clear_node_flags();
                            }
                        }
                    } else {
                        let m = if n == bs { md } else { md.make_partial(at, n) };
                        self.ctx.block = m;
                        let before: Vec<f64> = (0..no).flat_map(|c| (0..bs + 2).map(move |f| (c, f))).map(|(c, f)| rd(&out, c, f)).collect();
                        let mut o = out.partial_mut(at + 1, n);
                        if n == bs {
                            self.u.block(&mut self.ctx, &mut flags, &input, &mut o);
                        } else {
                            let part = PartialBlock::from_block(&input, at, n);
                            self.u.block(&mut self.ctx, &mut flags, &part, &mut o);
                        }
                        for c in 0..no {
                            for f in 0..bs + 2 {
                                let same = before[c * (bs + 2) + f].to_bits() == rd(&out, c, f).to_bits();
                                if (f < at + 1 || f > at + n) && !same {
                                    bad("wrote outside of the partial block".into());
                                }
                            }
                        }
                        let b = &self.ctx.block;
                        if (b.block_start_offset(), b.frames_to_process(), b.frame_clock()) != (m.block_start_offset(), m.frames_to_process(), m.frame_clock()) {
                            bad("the block metadata was left changed".into());
                        }
                        if let Some(d) = flags.done() {
                            dones.push(json!(d));
                            flags.clear_node_flags();
                        }
                    }
                    if let Some(f) = flags.remove_graph() {
                        rem = f as i64;
                    }
                    at += n;
                }
                if let Some(u) = &mut self.r {
                    let mut d = vec![];
                    let mut o = vec![vec![0i64; bs]; no];
                    let mut flags = UGenFlags::new();
                    for f in 0..bs {
                        self.ctx.block = md.make_partial(f, 1);
                        let x: Vec<f64> = (0..ni).map(|c| BlockRead::read(&input, c, f)).collect();
                        let y = u.frame(&mut self.ctx, &mut flags, &x);
                        for c in 0..no {
                            o[c][f] = enc(self.sc, y[c]);
                        }
                        if let Some(x) = flags.done() {
                            d.push(json!(x));
                            flags.clear_node_flags();
                        }
                    }
                    r["o2"] = json!(o);
                    r["done2"] = json!(d);
                    self.ctx.block = md;
                }
                self.clk += bs as u64;
                let o: Vec<Vec<i64>> = (0..no).map(|c| (0..bs).map(|f| enc(self.sc, rd(&out, c, f + 1))).collect()).collect();
                r["o"] = json!(o);
                r["done"] = json!(dones);
                r["rem"] = json!(rem);
            }
            // a change through UGen::param, by index or by name
            "set" => {
                let by = || if e["i"].is_null() { Param::Desc(crate::exec::leak(s(e, "n"))) } else { Param::Index(i(e, "i") as usize) };
                let tell = |x: Result<(), ParameterError>| match x {
                    Ok(()) => json!("ok"),
                    Err(ParameterError::ParameterIndexOutOfBounds) => json!("index"),
                    Err(ParameterError::DescriptionNotFound(d)) => json!(format!("name {d}")),
                    Err(ParameterError::WrongParameterType) => json!("type"),
                    Err(x) => json!(x.to_string()),
                };
                r["r"] = tell(self.u.set(&mut self.ctx, by(), value(e)));
                if let Some(x) = &mut self.r {
                    r["r2"] = tell(x.set(&mut self.ctx, by(), value(e)));
                }
            }
            "desc" => {
                r["r"] = json!(self.u.descriptions());
                r["ty"] = json!(self.u.types());
            }
            x => panic!("HARNESS: event {x}"),
        }
        let b: Vec<String> = BAD.with(|b| std::mem::take(&mut *b.borrow_mut()));
        r["bad"] = json!(b);
        r
    }
}
pub fn run_script(evs: &[Value], mut out: impl FnMut(Value)) {
    let e = &evs[0];
    BAD.with(|b| b.borrow_mut().clear());
    out(e.clone());
    let mut r = match quiet(|| Run::new(e)) {
        Ok(r) => r,
        Err(m) => return out(json!({"ev": "panic", "msg": m, "of": e})),
    };
    for e in &evs[1..] {
        match quiet(|| r.event(e)) {
            Ok(v) => out(v),
            Err(m) => {
                if m.starts_with("HARNESS") {
                    eprintln!("{m}");
                    std::process::exit(3);
                }
                out(json!({"ev": "panic", "msg": m, "of": e}));
                return;
            }
        }
    }
}
