use virto_common::PaymentId;
use vk::{check, cover, harnesses};

harnesses! {
    // id -> number -> id, and the documented layout of the number
    fn number_round_trip() {
        let n = vk::any_u64();
        let id = PaymentId::from_number(n);
        check!(id.to_number() == n, "number -> id -> number is the identity");
        check!(u64::from(id) == n && PaymentId::from(n) == id, "both conversions agree");
        check!(id.block_number() == (n >> 32) as u32, "block number is the upper half");
        check!(id.extrinsic_index() == ((n >> 16) & 0xffff) as u32, "extrinsic index is the next 16 bits");
        cover!(n > u64::MAX / 2, "large number");
    }

    // two different numbers are two different ids
    fn numbers_distinct() {
        let (a, b) = (vk::any_u64(), vk::any_u64());
        vk::assume(a != b);
        check!(PaymentId::from(a) != PaymentId::from(b), "different numbers give different ids");
        cover!(a == b ^ 1, "ids that differ in one bit");
    }

    #[kani::unwind(10)]
    fn bytes_are_little_endian() {
        let n = vk::any_u64();
        let id = PaymentId::from_number(n);
        let le = n.to_le_bytes();
        let r: &[u8] = id.as_ref();
        check!(r.len() == 8, "eight bytes");
        let k = vk::any_below(8) as usize;
        check!(r[k] == le[k], "bytes are those of the number, least significant first");
        let v = id.to_bytes();
        check!(v.len() == 8 && v[k] == le[k], "to_bytes gives the same bytes");
        cover!(true, "end");
    }

    // an id issued for (block, extrinsic, account) says so, and is unique per (block, extrinsic)
    #[kani::unwind(6)]
    fn issued_parts() {
        let (block, index) = (vk::any_u32(), vk::any_u16());
        let account = vk::any_bytes::<4>();
        let id = PaymentId::from((block, index as u32, &account[..]));
        check!(id.block_number() == block, "block kept");
        check!(id.extrinsic_index() == index as u32, "extrinsic index kept");
        let r: &[u8] = id.as_ref();
        check!(r[0] == account[0] && r[1] == account[1], "first two account bytes kept");
        check!(PaymentId::from_number(id.to_number()) == id, "survives the number form");
        cover!(block > 1 << 30 && index > 1 << 14, "late block");
    }

    #[kani::unwind(6)]
    fn issued_distinct() {
        let (b1, i1, b2, i2) = (vk::any_u32(), vk::any_u16(), vk::any_u32(), vk::any_u16());
        let (x, y) = (vk::any_bytes::<2>(), vk::any_bytes::<2>());
        vk::assume(b1 != b2 || i1 != i2 || x != y);
        let p = PaymentId::from((b1, i1 as u32, &x[..]));
        let q = PaymentId::from((b2, i2 as u32, &y[..]));
        check!(p != q && p.to_number() != q.to_number(), "ids of different extrinsics differ");
        cover!(b1 == b2 && i1 == i2, "only the account differs");
        cover!(b1 != b2 && i1 == i2, "only the block differs");
    }
}
