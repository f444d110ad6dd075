//! Functions on slices: checked up to a length, so not counted as proved.
use itertools::Itertools;
const N: usize = 6;
/// chunks(n): VxChunks::vx_chunks
#[kani::proof]
#[kani::unwind(8)]
#[kani::solver(cadical)]
fn bounded_chunks() {
    let a: [u32; N] = kani::any();
    let l: usize = kani::any();
    kani::assume(l <= N);
    let n: usize = kani::any();
    kani::assume(0 < n && n <= N + 1);
    let mut k = 0;
    for (i, c) in a[..l].chunks(n).enumerate() {
        let e = if (i + 1) * n < l { (i + 1) * n } else { l };
        assert!(c.len() == e - i * n);
        for (j, x) in c.iter().enumerate() {
            assert!(*x == a[i * n + j]);
        }
        k += 1;
    }
    assert!(k == (l + n - 1) / n);
}
/// find_position with any predicate: Itertools::find_position
#[kani::proof]
#[kani::unwind(8)]
fn bounded_find_position() {
    let p: [bool; N] = kani::any();
    let a: [u32; N] = [0, 1, 2, 3, 4, 5];
    let l: usize = kani::any();
    kani::assume(l <= N);
    let k: usize = kani::any();
    kani::assume(k < l);
    match a[..l].iter().find_position(|x| p[**x as usize]) {
        Some((i, x)) => {
            assert!(i < l && *x == a[i] && p[i]);
            assert!(k >= i || !p[k]);
        }
        None => assert!(!p[k]),
    }
}
/// as_ptr and from_raw_parts as bytes: axiom_raw_bytes, axiom_repr_len, with
/// repr the little endian bytes.
fn raw<T: kani::Arbitrary + Copy, const Z: usize>(repr: fn(T) -> [u8; Z]) {
    let a: [T; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    let s: usize = kani::any();
    let l: usize = kani::any();
    kani::assume(s <= l && l <= 4);
    let src = &a[s..l];
    let b = unsafe { core::slice::from_raw_parts(src.as_ptr() as *const u8, src.len() * core::mem::size_of::<T>()) };
    assert!(core::mem::size_of::<T>() == Z && b.len() == src.len() * Z);
    let k: usize = kani::any();
    kani::assume(k < b.len());
    assert!(b[k] == repr(src[k / Z])[k % Z]);
}
#[kani::proof]
fn bounded_raw_bytes() {
    raw::<i32, 4>(i32::to_le_bytes);
    raw::<i64, 8>(i64::to_le_bytes);
    raw::<u64, 8>(u64::to_le_bytes);
    raw::<f64, 8>(f64::to_le_bytes);
}
#[kani::proof]
#[kani::unwind(8)]
fn bounded_slices() {
    let a: [u32; 4] = kani::any();
    let mut v = a.to_vec();
    assert!(v.len() == 4);
    for i in 0..4 {
        assert!(v[i] == a[i]);
    }
    let k: usize = kani::any();
    kani::assume(k <= 4);
    let x: u32 = kani::any();
    {
        let t = &mut v[k..];
        assert!(t.len() == 4 - k);
        if k < 4 {
            t[0] = x;
        }
    }
    for i in 0..4 {
        assert!(v[i] == if i == k { x } else { a[i] });
    }
}
