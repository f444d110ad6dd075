//! Library functions on numbers, for all arguments.
fn le8(x: u64, n: usize) -> [u8; 8] {
    // crate::vxspec::le8
    let mut r = [0; 8];
    let mut x = x;
    for i in 0..n {
        r[i] = (x % 256) as u8;
        x /= 256;
    }
    r
}
#[kani::proof]
#[kani::unwind(9)]
fn le_be_bytes() {
    let x: u64 = kani::any();
    let y: u32 = kani::any();
    let i: usize = kani::any();
    kani::assume(i < 8);
    assert!(x.to_le_bytes()[i] == le8(x, 8)[i]);
    assert!(x.to_be_bytes()[i] == le8(x, 8)[7 - i]);
    if i < 4 {
        assert!(y.to_le_bytes()[i] == le8(y as u64, 4)[i]);
        assert!(y.to_be_bytes()[i] == le8(y as u64, 4)[3 - i]);
    }
}
/// For every dividend and every power of two.
#[kani::proof]
fn bounded_div_ceil() {
    let a: usize = kani::any();
    let k: u32 = kani::any();
    kani::assume(k < 64);
    let b = 1usize << k;
    let w = (a >> k) + if a & (b - 1) == 0 { 0 } else { 1 };
    assert!(a.div_ceil(b) == w);
    if w <= usize::MAX >> k {
        assert!(a.next_multiple_of(b) == w << k);
    }
}
#[kani::proof]
fn moves() {
    let a: u64 = kani::any();
    let b: u64 = kani::any();
    let c: bool = kani::any();
    assert!(core::cmp::min(a, b) == if b < a { b } else { a });
    assert!(core::cmp::max(a, b) == if b < a { a } else { b });
    assert!(c.then_some(a) == if c { Some(a) } else { None });
    let mut x = a;
    assert!(core::mem::replace(&mut x, b) == a && x == b);
    let mut x = a;
    assert!(core::mem::take(&mut x) == a && x == u64::default());
    assert!(Some(&a).copied() == Some(a));
    assert!(None::<&u64>.copied().is_none());
}
#[kani::proof]
fn sizes() {
    assert!(core::mem::size_of::<f64>() == 8);
}
