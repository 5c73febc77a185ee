//! Dispatch over alphabet widths.
use crate::ctx::Ctx;

#[macro_export]
macro_rules! width_table {
    ($f:ident; $($n:literal),* $(,)?) => {
        pub const WIDTHS: &[u32] = &[$($n),*];
        pub fn by_width(ctx: &mut Ctx, n: u32) {
            match n {
                $($n => $f::<$n>(ctx),)*
                _ => unreachable!(),
            }
        }
    };
}

#[macro_export]
macro_rules! all_widths {
    ($f:ident) => {
        $crate::width_table!($f; 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,
            31, 32, 33, 36, 40, 48, 50, 63, 64, 65, 80, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500,
            511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
            10000, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1000000, 1048575, 1048576, 1048577,
            2097151, 2097152, 2097153, 16777215, 16777216, 1073741823, 1073741824, 2147483647, 2147483648,
            3000000000, 4294967295);
    };
}

/// mostly small widths, all of them regularly
pub fn pick_width(ctx: &mut Ctx, widths: &[u32]) -> u32 {
    if ctx.rng.chance(1, 3) {
        widths[ctx.rng.us(12.min(widths.len()))]
    } else {
        *ctx.rng.pick(widths)
    }
}
