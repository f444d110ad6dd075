//@ file encoding/util.rs
//@ fn round_upto_power_of_2 props=C09
//@ sig
    requires factor > 0, factor & ((factor - 1) as usize) == 0, num + factor - 1 <= usize::MAX,
    ensures num <= ret < num + factor, ret & ((factor - 1) as usize) == 0,
//@ entry
    proof {
        let x = (num + (factor - 1)) as usize;
        let f = factor;
        let m = (factor - 1) as usize;
        assert(x & !m <= x && x - (x & !m) <= m && (x & !m) & m == 0) by (bit_vector);
    }
//@ fn ceil8 props=C09
//@ sig
    ensures ret == (value + 7) / 8,
//@ file encoding/offsets.rs
//@ fn OffsetEncoder::new props=C09
//@ fn OffsetEncoder::encode props=C09,C02
//@ sig
    requires
        old(src)@.len() <= MAX_BITS() / 64,
        fits(old(src)@, 31),
        old(dst)@.len() <= MAX_BITS(),
    ensures
        final(dst)@.len() > old(dst)@.len(),
        final(dst)@.subrange(0, old(dst)@.len() as int) == old(dst)@,
        off_is(final(dst)@.subrange(old(dst)@.len() as int, final(dst)@.len() as int), old(src)@),
//@ entry
    let ghost d0 = dst@.len() as int;
    let ghost lens = src@;
    let ghost k = (lens.len() + 127) / 128;
    proof {
        assert(128usize & 127usize == 0) by (bit_vector);
        assert(forall|r: usize| #[trigger] (r & 127) == r % 128) by (bit_vector);
    }
//@ after resize 0
    proof { vstd::arithmetic::power2::lemma_pow2_pos(31); assert(fits(src@, 31)); }
//@ loop 0 iter=it
    invariant
        src@.len() == 128 * k, it.seq().len() == k, num_bits <= 31, fits(src@, 31),
        forall|i: int| 0 <= i < k ==> (#[trigger] it.seq()[i])@ == pad_chunk(src@, i),
        forall|i: int| 0 <= i < it.index() ==> fits(#[trigger] pad_chunk(src@, i), num_bits as nat),
        num_bits > 0 ==> exists|i: int| 0 <= i < k && !fits(#[trigger] pad_chunk(src@, i), (num_bits - 1) as nat),
//@ loop 0 entry
    let ghost nb0 = num_bits;
    let ghost ix = it.index();
    proof { assert(chunk@ == pad_chunk(src@, ix)); }
//@ loop 0 exit
    proof {
        assert forall|i: int| 0 <= i < ix + 1 implies fits(#[trigger] pad_chunk(src@, i), num_bits as nat) by {
            if i < ix { lemma_fits_mono(pad_chunk(src@, i), nb0 as nat, num_bits as nat); }
            else {
                assert forall|w: u8| w <= num_bits && #[trigger] fits(pad_chunk(src@, i), w as nat) implies fits(pad_chunk(src@, i), num_bits as nat) by {
                    lemma_fits_mono(pad_chunk(src@, i), w as nat, num_bits as nat);
                }
            }
        }
    }
//@ after push 0
    proof {
        lemma_off_at(num_bits as int, k as int);
        lemma_off_bound(num_bits as int, k as int, src@.len() as int);
        lemma_off_at(num_bits as int, 0);
        assert(dst@.subrange(0, d0) =~= old(dst)@);
        assert(k <= 0x8000_0000_0001);
    }
    let ghost b1 = dst@;
//@ after resize 1
    proof {
        assert(dst@.subrange(0, d0 + 1) =~= b1.subrange(0, d0 + 1));
        assert(dst@[d0] == dst@.subrange(0, d0 + 1)[d0]);
        assert(b1[d0] == b1.subrange(0, d0 + 1)[d0]);
        assert(dst@.subrange(0, d0) =~= b1.subrange(0, d0));
    }
//@ loop 1 iter=it
    invariant
        src@.len() == 128 * k, it.seq().len() == k, num_bits <= 31, dst@.len() <= 2 * MAX_BITS(),
        forall|i: int| 0 <= i < k ==> (#[trigger] it.seq()[i])@ == pad_chunk(src@, i),
        forall|i: int| 0 <= i < k ==> fits(#[trigger] pad_chunk(src@, i), num_bits as nat),
        d0 == old(dst)@.len(), d0 <= MAX_BITS(),
        dst@.len() == d0 + 1 + off_at(num_bits as int, k as int),
        dst@.subrange(0, d0) == old(dst)@, dst@[d0] == num_bits,
        chunk_start == d0 + 1 + off_at(num_bits as int, it.index() as int),
        forall|i: int| 0 <= i < it.index() ==> dst@.subrange(d0 + 1 + off_at(num_bits as int, i), d0 + 1 + off_at(num_bits as int, i + 1))
            == bp_pack(#[trigger] pad_chunk(src@, i), num_bits),
//@ loop 1 entry
    let ghost ix = it.index();
    let ghost b0 = dst@;
    proof {
        assert(chunk@ == pad_chunk(src@, ix));
        lemma_off_at(num_bits as int, ix);
        lemma_off_mono(num_bits as int, ix + 1, k as int);
    }
//@ loop 1 exit
    proof {
        let nb = num_bits as int;
        let a = d0 + 1 + off_at(nb, ix);
        let b = d0 + 1 + off_at(nb, ix + 1);
        axiom_bp(pad_chunk(src@, ix), num_bits);
        assert(dst@ =~= b0.subrange(0, a) + (bp_pack(pad_chunk(src@, ix), num_bits) + b0.subrange(b, b0.len() as int)));
        assert(dst@.subrange(a, b) =~= bp_pack(pad_chunk(src@, ix), num_bits));
        assert(dst@.subrange(0, d0) =~= b0.subrange(0, d0));
        assert forall|i: int| 0 <= i < ix + 1 implies dst@.subrange(d0 + 1 + off_at(nb, i), d0 + 1 + off_at(nb, i + 1))
            == bp_pack(#[trigger] pad_chunk(src@, i), num_bits) by {
            if i < ix {
                lemma_off_at(nb, i);
                lemma_off_mono(nb, i + 1, ix);
                assert(dst@.subrange(d0 + 1 + off_at(nb, i), d0 + 1 + off_at(nb, i + 1))
                    =~= b0.subrange(d0 + 1 + off_at(nb, i), d0 + 1 + off_at(nb, i + 1)));
            }
        }
    }
//@ exit
    proof {
        let nb = num_bits as int;
        let s = dst@.subrange(d0, dst@.len() as int);
        assert forall|i: int| 0 <= i < k implies s.subrange(1 + off_at(nb, i), 1 + off_at(nb, i + 1)) == bp_pack(#[trigger] pad_chunk(src@, i), num_bits) by {
            lemma_off_at(nb, i);
            lemma_off_mono(nb, i + 1, k as int);
            assert(s.subrange(1 + off_at(nb, i), 1 + off_at(nb, i + 1)) =~= dst@.subrange(d0 + 1 + off_at(nb, i), d0 + 1 + off_at(nb, i + 1)));
        }
        lemma_off_vals(s, num_bits, src@, k as nat);
        assert(src@.subrange(0, 128 * k as int) =~= src@);
        assert forall|i: int| 0 <= i < k implies (#[trigger] off_chunk(s, num_bits, i)).len() == 128
            && s.subrange(1 + off_at(nb, i), 1 + off_at(nb, i + 1)) == bp_pack(off_chunk(s, num_bits, i), num_bits) by {
            axiom_bp(pad_chunk(src@, i), num_bits);
        }
        assert(off_vals(s, num_bits, k as nat).subrange(0, lens.len() as int) =~= lens);
        if num_bits > 0 {
            let i = choose|i: int| 0 <= i < k && !fits(#[trigger] pad_chunk(src@, i), (num_bits - 1) as nat);
            let c = pad_chunk(src@, i);
            let j = choose|j: int| 0 <= j < c.len() && !((#[trigger] c[j] as int) < vstd::arithmetic::power2::pow2((num_bits - 1) as nat));
            vstd::arithmetic::power2::lemma_pow2_pos((num_bits - 1) as nat);
            assert(src@[128 * i + j] == c[j]);
            assert(lens[128 * i + j] == c[j]);
        }
    }
