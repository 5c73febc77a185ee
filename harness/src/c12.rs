//! C12: the floating-point fields, bit by bit.
use crate::ctx::Ctx;
use crate::ensure;
use crate::rng::Rng;
use rustyalgebra::coefficients::{CoefficientField, FromDegreeType};

trait Fl: CoefficientField<RationalType = Self> + Copy + std::fmt::Debug + From<i8> + From<i16> {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
    fn bits(self) -> u64;
    fn nan(self) -> bool;
    fn o_add(self, o: Self) -> Self;
    fn o_sub(self, o: Self) -> Self;
    fn o_mul(self, o: Self) -> Self;
    fn o_div(self, o: Self) -> Self;
    fn o_neg(self) -> Self;
    fn o_u32(v: u32) -> Self;
    fn o_i(v: i64) -> Self;
}
macro_rules! fl {
    ($t:ident, $u:ident) => {
        impl Fl for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> $t {
                const S: &[$t] = &[
                    0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 0.1, $t::MAX, $t::MIN, $t::MIN_POSITIVE, -$t::MIN_POSITIVE,
                    $t::EPSILON, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, 1e-40, 5e-324f64 as $t, 1.0 - $t::EPSILON / 2.0,
                    1.0 + $t::EPSILON, 16777216.0, 16777217.0, 9007199254740992.0, 1e10, 1e30, -7.0, 1e-30,
                ];
                match r.below(4) {
                    0 => *r.pick(S),
                    1 => r.below(2001) as $t - 1000.0,
                    2 => (r.u64() as i64 as $t) / ((1u64 << r.below(60)) as $t),
                    _ => $t::from_bits(r.u64() as $u),
                }
            }
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn nan(self) -> bool {
                self.is_nan()
            }
            fn o_add(self, o: Self) -> Self {
                std::hint::black_box(self) + std::hint::black_box(o)
            }
            fn o_sub(self, o: Self) -> Self {
                std::hint::black_box(self) - std::hint::black_box(o)
            }
            fn o_mul(self, o: Self) -> Self {
                std::hint::black_box(self) * std::hint::black_box(o)
            }
            fn o_div(self, o: Self) -> Self {
                std::hint::black_box(self) / std::hint::black_box(o)
            }
            fn o_neg(self) -> Self {
                $t::from_bits(self.to_bits() ^ (1 << ($u::BITS - 1)))
            }
            fn o_u32(v: u32) -> Self {
                v as $t
            }
            fn o_i(v: i64) -> Self {
                v as $t
            }
        }
    };
}
fl!(f32, u32);
fl!(f64, u64);

fn eq<F: Fl>(a: F, b: F) -> bool {
    a.bits() == b.bits() || (a.nan() && b.nan())
}

pub fn run(ctx: &mut Ctx) {
    if ctx.rng.chance(1, 2) { case::<f32>(ctx) } else { case::<f64>(ctx) }
}

fn case<F: Fl>(ctx: &mut Ctx) {
    for _ in 0..16 {
        let (a, b) = (F::gen(&mut ctx.rng), F::gen(&mut ctx.rng));
        let b = if ctx.rng.chance(1, 10) { a } else { b };
        ctx.mixin(a.bits());
        ctx.mixin(b.bits());
        ctx.nontrivial = true;
        ctx.step(|| format!("{} a = {:?}, b = {:?}", F::NAME, a, b));
        macro_rules! op {
            ($name:literal, $f:expr, $g:expr, $o:expr) => {{
                let want: F = $o;
                let got: F = $f;
                ctx.ev($name);
                ensure!(ctx, eq(got, want), "{}: {}({:?}, {:?}) = {:?}, expected {:?}", F::NAME, $name, a, b, got, want);
                let mut t = a;
                let ret: F = {
                    let r: &mut F = $g(&mut t);
                    *r
                };
                ensure!(ctx, eq(t, want), "{}: in-place {}({:?}, {:?}) left {:?}, expected {:?}", F::NAME, $name, a, b, t, want);
                ensure!(ctx, eq(ret, want), "{}: in-place {}({:?}, {:?}) returned {:?}, expected {:?}", F::NAME, $name, a, b, ret, want);
            }};
        }
        op!("add", CoefficientField::add(&a, &b), |t| CoefficientField::add_inplace(t, &b), a.o_add(b));
        op!("sub", CoefficientField::sub(&a, &b), |t| CoefficientField::sub_inplace(t, &b), a.o_sub(b));
        op!("mul", CoefficientField::mul(&a, &b), |t| CoefficientField::mul_inplace(t, &b), a.o_mul(b));
        op!("div", CoefficientField::div(&a, &b), |t| CoefficientField::div_inplace(t, &b), a.o_div(b));
        // the returned reference is the scalar itself
        let mut t = a;
        CoefficientField::add_inplace(CoefficientField::mul_inplace(&mut t, &b), &a);
        let want = a.o_mul(b).o_add(a);
        ensure!(ctx, eq(t, want), "{}: chained in-place a*b+a with a={:?} b={:?} left {:?}, expected {:?}", F::NAME, a, b, t, want);
        let mut t = a;
        CoefficientField::div_inplace(CoefficientField::sub_inplace(&mut t, &b), &b);
        let want = a.o_sub(b).o_div(b);
        ensure!(ctx, eq(t, want), "{}: chained in-place (a-b)/b with a={:?} b={:?} left {:?}, expected {:?}", F::NAME, a, b, t, want);
        ctx.evn("chained in-place", 2);
        let n = a.uminus();
        ensure!(ctx, eq(n, a.o_neg()), "{}: -({:?}) = {:?}", F::NAME, a, n);
        ctx.ev("uminus");
        let i = F::inv(a);
        ensure!(ctx, eq(i, F::o_i(1).o_div(a)), "{}: inv({:?}) = {:?}", F::NAME, a, i);
        let i = F::inv(&b);
        ensure!(ctx, eq(i, F::o_i(1).o_div(b)), "{}: inv({:?}) = {:?}", F::NAME, b, i);
        ctx.evn("inv", 2);
        let r = F::from_rational(a, b);
        ensure!(ctx, eq(r, a.o_div(b)), "{}: ratio {:?}/{:?} = {:?}", F::NAME, a, b, r);
        let (p, q) = (ctx.rng.u64() as i8, ctx.rng.u64() as i16);
        let r = F::from_rational(p, q);
        ensure!(ctx, eq(r, F::o_i(p as i64).o_div(F::o_i(q as i64))), "{}: ratio {}/{} = {:?}", F::NAME, p, q, r);
        ctx.evn("from_rational", 2);
        let d = match ctx.rng.below(4) {
            0 => ctx.rng.below(70) as u32,
            1 => *ctx.rng.pick(&[u32::MAX, 1 << 24, (1 << 24) + 1, i32::MAX as u32, 1 << 31, 65535, 65536, 255, 256]),
            _ => ctx.rng.u64() as u32,
        };
        let g = F::from_degree(&d);
        ensure!(ctx, eq(g, F::o_u32(d)), "{}: from_degree({}) = {:?}", F::NAME, d, g);
        ctx.ev("from_degree");
        let v = ctx.rng.u64() as i16;
        ensure!(ctx, eq(<F as From<i16>>::from(v), F::o_i(v as i64)), "{}: from({})", F::NAME, v);
        ensure!(ctx, eq(F::ZERO, F::o_i(0)), "{}: ZERO is {:?}", F::NAME, F::ZERO);
        ensure!(ctx, eq(F::ONE, F::o_i(1)), "{}: ONE is {:?}", F::NAME, F::ONE);
        ensure!(ctx, eq(F::MONE, F::o_i(-1)), "{}: MONE is {:?}", F::NAME, F::MONE);
    }
    let fam = F::NAME;
    ctx.note(|| fam.to_string());
}
