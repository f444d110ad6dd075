//@ file encoding/varint.rs
//@ fn encoded_len_varint props=C08
//@ sig
    ensures ret == venc(value as nat).len(),
//@ entry
    proof { lemma_encoded_len(value); let lz = vstd::std_specs::bits::u64_leading_zeros(value | 1); assert(forall|n: u32| n <= 63 ==> #[trigger] (n ^ 63u32) == 63 - n) by (bit_vector); assert(lz <= 63); assert((((63 - lz) * 9 + 73) / 64) == ((64 - lz) + 6) / 7); }
//@ fn encode_varint props=C08
//@ sig
    requires old(buf)@.len() >= venc(value as nat).len(),
    ensures
        ret == venc(value as nat).len(),
        1 <= ret <= 10,
        final(buf)@.len() == old(buf)@.len(),
        final(buf)@.subrange(0, ret as int) == venc(value as nat),
        final(buf)@.subrange(ret as int, old(buf)@.len() as int) == old(buf)@.subrange(ret as int, old(buf)@.len() as int),
//@ entry
    let ghost v0 = value;
    proof { lemma_venc_len10(value as nat); assert(buf@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + venc(value as nat) =~= venc(value as nat)); }
//@ loop 0
    invariant
        buf@.len() == old(buf)@.len(),
        i + venc(value as nat).len() == venc(v0 as nat).len(),
        venc(v0 as nat).len() <= old(buf)@.len(),
        venc(v0 as nat).len() <= 10,
        venc(v0 as nat) == buf@.subrange(0, i as int) + venc(value as nat),
        buf@.subrange(i as int, buf@.len() as int) == old(buf)@.subrange(i as int, buf@.len() as int),
    decreases value
//@ loop 0 entry
    let ghost vb = value;
    let ghost bb = buf@;
    proof {
        assert(((vb & 0x7F) | 0x80) as u8 == (vb % 128 + 128) as u8) by (bit_vector);
        assert(vb >> 7 == vb / 128) by (bit_vector);
        assert(venc(vb as nat).len() == 1 + venc((vb / 128) as nat).len());
        lemma_venc_len_lin((vb / 128) as nat);
    }
//@ loop 0 exit
    proof {
        let i0 = i - 1;
        let h = seq![(vb % 128 + 128) as u8];
        assert(venc(vb as nat) == h + venc(value as nat));
        assert(buf@.subrange(0, i as int) =~= bb.subrange(0, i0) + h);
        assert(bb.subrange(0, i0) + (h + venc(value as nat)) =~= (bb.subrange(0, i0) + h) + venc(value as nat));
        assert(buf@.subrange(i as int, buf@.len() as int) =~= bb.subrange(i0, bb.len() as int).subrange(1, bb.len() - i0));
        assert(old(buf)@.subrange(i as int, buf@.len() as int) =~= old(buf)@.subrange(i0, bb.len() as int).subrange(1, bb.len() - i0));
    }
//@ exit
    proof {
        assert(buf@.subrange(0, vx_ret as int) =~= venc(v0 as nat));
        assert(buf@.subrange(vx_ret as int, buf@.len() as int) =~= old(buf)@.subrange(vx_ret as int, buf@.len() as int)) by {
            assert forall|j: int| vx_ret <= j < buf@.len() implies buf@[j] == old(buf)@[j] by {
                let i0 = vx_ret - 1;
                assert(old(buf)@.subrange(i0, buf@.len() as int)[j - i0] == old(buf)@[j]);
            }
        }
    }
//@ fn decode_varint props=C08
//@ sig
    requires vsafe(buf@),
    ensures
        vdec(buf@) is Some <==> ret is Ok,
        ret matches Ok(p) ==> p.1 == vdec(buf@)->Some_0.1 && p.0 == low64(vdec(buf@)->Some_0.0),
//@ entry
    proof { lemma_vdec_cases(buf@); lemma_vdec_shifts(); broadcast use lemma_no_top;
        let b = buf@;
        if b.len() >= 10 && b[0] >= 128 && b[1] >= 128 && b[2] >= 128 && b[3] >= 128 && b[4] >= 128 && b[5] >= 128 && b[6] >= 128 && b[7] >= 128 && b[8] >= 128 {
            let lo = b[0] - 128 + (b[1] - 128) * 128 + (b[2] - 128) * 16384 + (b[3] - 128) * 2097152
                + (b[4] - 128) * 268435456 + (b[5] - 128) * 34359738368 + (b[6] - 128) * 4398046511104 + (b[7] - 128) * 562949953421312;
            let p = b[8] - 128 + b[9] * 128;
            lemma_top_bits(lo as nat, p as nat);
            if b[9] < 128 { assert(vdec(b)->Some_0.0 == lo + p * 0x100_0000_0000_0000); }
        }
    }
//@ fn trait@Encoder::put_varint props=C08
//@ sig
    ensures final(self).vx_out() == old(self).vx_out() + venc(value as nat),
//@ block trait@Encoder
    spec fn vx_out(&self) -> Seq<u8>;
//@ block Encoder@Vec
    open spec fn vx_out(&self) -> Seq<u8> { self@ }
//@ fn Encoder@Vec::put_varint props=C08
//@ entry
    proof { lemma_venc_len10(value as nat); }
//@ exit
    proof { assert(self@ =~= old(self)@ + venc(value as nat)); }
