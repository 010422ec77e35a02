//! The Kreivo runtime's own types, taken from its sources, on top of stand-ins for the rest.
#![allow(static_mut_refs, unused_imports, dead_code)]
extern crate alloc;

pub mod parts;
pub mod standins;
pub use parts::*;
pub use standins::*;

/// Custom origins.
#[path = "/repo/runtime/kreivo/src/governance/origins.rs"]
pub mod origins;
pub use origins::pallet_custom_origins;

pub use shim::shim_macro::pick;

pub mod communities {
    use super::*;
    pick! {
        "/repo/runtime/kreivo/src/communities/mod.rs";
        types { CreationPayment, EnsureCommunityAccount, RootCreatesCommunitiesForFree, AnyoneElsePays };
        params { CommunityPalletId, CommunityDepositAmount, NoPay, MembershipsCollectionId };
        config pallet_communities { CreateOrigin, AdminOrigin, MemberMgmtOrigin, PalletId };
        config pallet_communities_manager { RegisterOrigin, CreateMembershipsOrigin, MembershipsManagerOwner, MembershipsManagerCollectionId }
    }
    pub mod governance {
        use crate::*;
        pick! {
            "/repo/runtime/kreivo/src/communities/governance.rs";
            types { CommunityTracksInstance, CommunityReferendaInstance };
            config pallet_referenda { SubmitOrigin, CancelOrigin, KillOrigin };
            config pallet_referenda_tracks { AdminOrigin, UpdateOrigin }
        }
    }
    pub mod memberships {
        use crate::*;
        pick! {
            "/repo/runtime/kreivo/src/communities/memberships.rs";
            config pallet_nfts { ForceOrigin, CreateOrigin }
        }
    }
}
pub mod payments {
    use super::*;
    use shim::sp_vec as vec;
    pick! {
        "/repo/runtime/kreivo/src/payments.rs";
        params { IncentivePercentage, PaymentPalletId };
        config pallet_payments { PaymentId, FeeHandler, IncentivePercentage, SenderOrigin, BeneficiaryOrigin, DisputeResolver, PalletId, CancelBufferBlockLength }
    }
}
pub mod impls {
    use super::*;
    pick! { "/repo/runtime/kreivo/src/impls.rs" }
}
pub mod contracts {
    use super::*;
    pick! {
        "/repo/runtime/kreivo/src/contracts.rs";
        skip { schedule, DummyRandomness };
        config pallet_contracts { UploadOrigin, InstantiateOrigin, CallFilter }
    }
}
pub mod collective {
    use super::*;
    pick! {
        "/repo/runtime/kreivo/src/collective/mod.rs";
        config pallet_ranked_collective { AddOrigin, PromoteOrigin, RemoveOrigin, DemoteOrigin, ExchangeOrigin, MinRankOfClass }
    }
    pub mod tracks {
        use crate::*;
        pick! { "/repo/runtime/kreivo/src/collective/tracks.rs"; types { TrackId } }
    }
    pub mod governance {
        use crate::pallet_custom_origins::*;
        use crate::*;
        pick! {
            "/repo/runtime/kreivo/src/collective/governance.rs";
            types { KreivoReferendaInstance };
            config pallet_referenda { SubmitOrigin, CancelOrigin, KillOrigin }
        }
    }
}
pub mod system_support {
    use super::*;
    pick! {
        "/repo/runtime/kreivo/src/configuration/system_support.rs";
        params { PassPalletId, NeverPays };
        config frame_system { Lookup };
        config pallet_pass { RegisterOrigin, PalletId }
    }
}
pub mod xcm_config {
    use super::*;
    use crate::constants::fee::WeightToFee;
    use crate::constants::locations::ASSET_HUB_ID;
    use crate::parts::parachains_common::xcm_config::{pallet_assets, AssetFeeAsExistentialDepositMultiplier, KreivoAssetsInstance};
    use crate::standins::Assets;
    pick! {
        "/repo/runtime/kreivo/src/xcm_config.rs";
        types { LocationToAccountId, LocationConvertedConcreteId, FungiblesTransactor, FungibleTransactor, AssetTransactors, Traders,
            AssetFeeAsExistentialDepositMultiplierFeeCharger, Barrier, Reserves, CanSendXcmMessages, CanExecuteXcmTransactions, XcmOriginToTransactDispatchOrigin };
        params { RelayLocation, RelayNetwork, RelayChainOrigin, CheckAccount, CheckingAccount, XcmAssetFeesReceiver, UniversalLocation, AssetHubLocation, PolkadotLocation, MaxAssetsIntoHolding, MaxInstructions };
        config pallet_xcm { SendXcmOrigin, ExecuteXcmOrigin, XcmExecuteFilter, XcmTeleportFilter, SovereignAccountOf, AdminOrigin };
        config xcm_executor { AssetTransactor, Trader, Barrier, OriginConverter, IsReserve, IsTeleporter, UniversalAliases, Aliasers }
    }
    use communities::{AccountId32FromRelay, PluralityConvertsToCommunityAccountId, SignedByCommunityToPlurality};
    pub mod communities {
        use super::*;
        use crate::xcm_executor::traits::ConvertLocation;
        pick! { "/repo/runtime/kreivo/src/xcm_config/communities.rs" }
    }
}
pub mod privileged {
    use super::*;
    use crate::impls::*;
    use crate::xcm_config::{RelayLocation, XcmOriginToTransactDispatchOrigin};
    use xcm::latest::BodyId;
    pick! {
        "/repo/runtime/kreivo/src/lib.rs";
        bare;
        skip { VERSION, native_version, MAXIMUM_BLOCK_WEIGHT };
        types { CollatorSelectionUpdateOrigin };
        params { StakingAdminBodyId };
        config cumulus_pallet_xcmp_queue { ControllerOrigin, ControllerOriginConverter };
        config pallet_collator_selection { UpdateOrigin };
        config pallet_treasury { RejectOrigin, SpendOrigin };
        config pallet_proxy { ProxyType };
        config pallet_scheduler { ScheduleOrigin, OriginPrivilegeCmp };
        config pallet_preimage { ManagerOrigin }
    }
}
pub mod monetary_stuff {
    use super::*;
    pick! {
        "/repo/runtime/kreivo/src/configuration/monetary_stuff.rs";
        bare;
        types { AssetsForceOrigin };
        config pallet_assets { CreateOrigin, ForceOrigin }
    }
}
pub mod constants {
    pub mod currency {
        use crate::parts::{polkadot_core_primitives::Balance, runtime_constants as constants};
        use crate::pick;
        pick! { "/repo/runtime/kreivo/src/constants.rs"; inside currency }
    }
    pub mod fee {
        use super::currency::CENTS;
        use crate::parts::{polkadot_core_primitives::Balance, smallvec};
        use crate::pick;
        pick! { "/repo/runtime/kreivo/src/constants.rs"; inside fee }
    }
    pub mod locations {
        use crate::pick;
        pick! { "/repo/runtime/kreivo/src/constants.rs"; inside locations }
    }
}

/// Weights of messages.
#[path = "/repo/runtime/kreivo/src/weights/xcm/mod.rs"]
pub mod xcm_weights;

pub mod assets;
pub mod fees;
pub mod holding;
pub mod places;
pub mod roles;
pub mod weighing;
pub mod world;

#[cfg(not(kani))]
pub fn replay(name: &str) -> bool {
    match name.split_once("::") {
        Some(("assets", n)) => assets::replay(n),
        Some(("fees", n)) => fees::replay(n),
        Some(("holding", n)) => holding::replay(n),
        Some(("places", n)) => places::replay(n),
        Some(("roles", n)) => roles::replay(n),
        Some(("weighing", n)) => weighing::replay(n),
        _ => false,
    }
}
