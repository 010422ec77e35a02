//! Asset ids and the places they stand for.
use crate::world::*;
use crate::*;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::traits::MaybeEquivalence;
use xcm::latest::{Junction::*, Location, NetworkId};

/// The bytes of any asset id, and the location it stands for.
fn any_asset(kind: u8) -> (FungibleAssetLocation, Location, [u8; 18], usize) {
    let (id, pallet, index) = (vk::any_u16(), vk::any_u8(), vk::any_u32());
    let (i, x, chain) = (id.to_le_bytes(), index.to_le_bytes(), vk::any_u64());
    let para = [i[0], i[1], pallet, x[0], x[1], x[2], x[3]];
    let mut bytes = [0u8; 18];
    let (location, len) = match kind {
        0 => {
            bytes[1..5].copy_from_slice(&x);
            (Location::new(0, [PalletInstance(13), GeneralIndex(index as u128)]), 5)
        }
        1 => {
            bytes[0] = 1;
            bytes[1..8].copy_from_slice(&para);
            (Location::new(1, [Parachain(id as u32), PalletInstance(pallet), GeneralIndex(index as u128)]), 8)
        }
        k => {
            bytes[0] = 2;
            let (network, at) = match vk::any_below(3) {
                0 => (NetworkId::Polkadot, 2),
                1 => {
                    bytes[1] = 1;
                    (NetworkId::Kusama, 2)
                }
                _ => {
                    bytes[1] = 2;
                    bytes[2..10].copy_from_slice(&chain.to_le_bytes());
                    (NetworkId::Ethereum { chain_id: chain }, 10)
                }
            };
            if k == 2 {
                (Location::new(2, [GlobalConsensus(network)]), at + 1)
            } else {
                bytes[at] = 1;
                let mut j = 0;
                while j < 7 {
                    bytes[at + 1 + j] = para[j];
                    j += 1;
                }
                let path =
                    [GlobalConsensus(network), Parachain(id as u32), PalletInstance(pallet), GeneralIndex(index as u128)];
                (Location::new(2, path), at + 8)
            }
        }
    };
    let a = FungibleAssetLocation::decode(&mut &bytes[..len]);
    vk::check!(a.is_ok(), "the bytes of an asset id are those of its kind, network, parachain, pallet and index");
    (a.unwrap(), location, bytes, len)
}

fn there_and_back(kind: u8) {
    let (a, l, _, _) = any_asset(kind);
    let there = AsFungibleAssetLocation::convert_back(&a);
    vk::check!(there == Some(l), "an asset id stands for its own location");
    vk::check!(AsFungibleAssetLocation::convert(&l) == Some(a), "that location is read as the same asset id");
    vk::cover!(true, "done");
}
fn any_place(junctions: u8) {
    let l = any_path(junctions);
    let r = AsFungibleAssetLocation::convert(&l);
    vk::cover!(r.is_some() || junctions == 0 || junctions == 5, "some");
    match r {
        Some(a) => {
            vk::check!(AsFungibleAssetLocation::convert_back(&a) == Some(l), "no two locations are read as the same asset");
            vk::check!(junctions >= 1 && junctions <= 4, "neither empty nor long paths are assets");
        }
        None => vk::cover!(true, "none"),
    }
}
/// What is written is what is read.
fn bytes(kind: u8) {
    let (a, _, bytes, len) = any_asset(kind);
    let mut out = Out { at: 0, bytes: [0; 18] };
    a.encode_to(&mut out);
    vk::check!(out.at == len && out.bytes == bytes, "an asset id is written as it was read");
    vk::check!(len <= FungibleAssetLocation::max_encoded_len(), "no asset id is longer than the longest");
    vk::cover!(kind < 3 || len == FungibleAssetLocation::max_encoded_len(), "longest");
}

vk::harnesses! {
    #[kani::unwind(20)]
    fn here() { there_and_back(0) }
    #[kani::unwind(20)]
    fn sibling() { there_and_back(1) }
    #[kani::unwind(20)]
    fn network() { there_and_back(2) }
    #[kani::unwind(20)]
    fn child() { there_and_back(3) }
    #[kani::unwind(35)]
    fn place0() { any_place(0) }
    #[kani::unwind(35)]
    fn place1() { any_place(1) }
    #[kani::unwind(35)]
    fn place2() { any_place(2) }
    #[kani::unwind(35)]
    fn place3() { any_place(3) }
    #[kani::unwind(35)]
    fn place4() { any_place(4) }
    #[kani::unwind(35)]
    fn place5() { any_place(5) }
    #[kani::unwind(20)]
    fn bytes_here() { bytes(0) }
    #[kani::unwind(20)]
    fn bytes_sibling() { bytes(1) }
    #[kani::unwind(20)]
    fn bytes_network() { bytes(2) }
    #[kani::unwind(20)]
    fn bytes_child() { bytes(3) }
    /// Bytes that are those of no asset id are refused, and none is read twice.
    #[kani::unwind(20)]
    fn bytes_any() {
        let (b, n) = (vk::any_bytes::<18>(), vk::any_below(19) as usize);
        let mut input = &b[..n];
        match FungibleAssetLocation::decode(&mut input) {
            Ok(a) => {
                let used = n - input.len();
                let mut out = Out { at: 0, bytes: [0; 18] };
                a.encode_to(&mut out);
                let mut i = 0;
                while i < 18 {
                    vk::check!(i >= used || out.bytes[i] == b[i], "an asset id is written as it was read");
                    i += 1;
                }
                vk::check!(out.at == used, "the whole asset id is read");
                vk::cover!(used == 5, "shortest");
                vk::cover!(used == 18, "longest");
            }
            Err(_) => vk::cover!(n == 18, "refused"),
        }
    }
    /// Payment ids are written as their eight bytes.
    #[kani::unwind(20)]
    fn payment_ids() {
        let n = vk::any_u64();
        let id = virto_common::PaymentId::from(n);
        let mut out = Out { at: 0, bytes: [0; 18] };
        Encode::encode_to(&id, &mut out);
        let b = n.to_le_bytes();
        vk::check!(out.at == 8 && out.bytes[..8] == b, "a payment id is written as the bytes of its number");
        vk::check!(virto_common::PaymentId::decode(&mut &b[..]) == Ok(id), "and read back from them");
        vk::check!(<virto_common::PaymentId as MaxEncodedLen>::max_encoded_len() == 8, "eight bytes are enough");
        let short = vk::any_below(8);
        vk::check!(virto_common::PaymentId::decode(&mut &b[..short as usize]).is_err(), "fewer bytes are refused");
        vk::cover!(n > u32::MAX as u64, "large");
    }
}

struct Out {
    at: usize,
    bytes: [u8; 18],
}
impl parity_scale_codec::Output for Out {
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            if self.at == 18 {
                shim::out_of_bounds("encoding")
            }
            self.bytes[self.at] = b[i];
            self.at += 1;
            i += 1;
        }
    }
}
