//! axiom_bp, axiom_bp_zeros and the contracts of BitPacker4x::{num_bits,
//! compress}: for every chunk of 128 values, at every width.
use bitpacking::{BitPacker, BitPacker4x};
use core::arch::x86_64::{CpuidResult, __m128i};

/// A CPU with SSE3, so that the SSE3 code is checked, which is what runs.
fn cpuid(_leaf: u32, _sub: u32) -> CpuidResult {
    CpuidResult { eax: 1, ebx: 0, ecx: 1, edx: 0 }
}
/// lddqu is an unaligned load of 128 bits (Intel SDM); kani does not model it.
unsafe fn lddqu(p: *const __m128i) -> __m128i {
    core::ptr::read_unaligned(p)
}
fn width<const NB: u8, const N: usize>() {
    let d: [u32; 128] = kani::any();
    for x in d.iter() {
        kani::assume((*x as u64) < 1u64 << NB);
    }
    let p = BitPacker4x::new();
    let pre: [u8; N] = kani::any();
    let mut a = pre;
    let mut b = [0u8; N];
    let used = 16 * NB as usize;
    assert!(N == used + 16);
    assert!(p.compress(&d, &mut a, NB) == used);
    p.compress(&d, &mut b, NB);
    let k: usize = kani::any();
    kani::assume(k < N);
    if k < used {
        // the same bytes whatever was there before
        assert!(a[k] == b[k]);
    } else {
        assert!(a[k] == pre[k]);
    }
    let mut e: [u32; 128] = kani::any();
    p.decompress(&a[..used], &mut e, NB);
    let i: usize = kani::any();
    kani::assume(i < 128);
    assert!(e[i] == d[i]);
    // zeros are zero bytes
    let mut z: [u8; N] = pre;
    p.compress(&[0u32; 128], &mut z, NB);
    if k < used {
        assert!(z[k] == 0);
    }
}
macro_rules! widths {
    ($($name:ident $nb:expr,)*) => { $(
        #[kani::proof]
        #[kani::unwind(129)]
        #[kani::solver(cadical)]
        #[kani::stub(core::arch::x86_64::__cpuid_count, cpuid)]
        #[kani::stub(core::arch::x86_64::_mm_lddqu_si128, lddqu)]
        fn $name() { width::<$nb, { 16 * $nb + 16 }>() }
    )* }
}
widths! {
    bp_00 0, bp_01 1, bp_02 2, bp_03 3, bp_04 4, bp_05 5, bp_06 6, bp_07 7, bp_08 8, bp_09 9, bp_10 10, bp_11 11,
    bp_12 12, bp_13 13, bp_14 14, bp_15 15, bp_16 16, bp_17 17, bp_18 18, bp_19 19, bp_20 20, bp_21 21, bp_22 22,
    bp_23 23, bp_24 24, bp_25 25, bp_26 26, bp_27 27, bp_28 28, bp_29 29, bp_30 30, bp_31 31,
}
#[kani::proof]
#[kani::unwind(129)]
#[kani::solver(cadical)]
#[kani::stub(core::arch::x86_64::__cpuid_count, cpuid)]
#[kani::stub(core::arch::x86_64::_mm_lddqu_si128, lddqu)]
fn bp_num_bits() {
    let d: [u32; 128] = kani::any();
    let r = BitPacker4x::new().num_bits(&d);
    assert!(r <= 32);
    let i: usize = kani::any();
    kani::assume(i < 128);
    assert!((d[i] as u64) < 1u64 << r);
    if r > 0 {
        assert!(d.iter().any(|x| *x as u64 >= 1u64 << (r - 1)));
    }
    assert!(BitPacker4x::BLOCK_LEN == 128);
}
