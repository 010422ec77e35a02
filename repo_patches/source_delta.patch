From ee567b531801e3a177af13bbcb1e28624c55b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:36 +0000
Subject: [PATCH 01/18] fix: reject over-long dashed payment ids instead of
 panicking

Parsing a payment id with a dash copies the text around it to a 12 byte
buffer. Longer input indexed past the buffer and panicked, so untrusted
text could abort the caller. Return an error as for other malformed ids.
---
 common/src/payment_id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..fef0a68 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,7 +100,9 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
-- 
2.43.0


From 355464d80cde49c715ed27cb51c8298cbd5e8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:36 +0000
Subject: [PATCH 02/18] fix: reject payment id text that does not encode
 exactly eight bytes

The number of decoded bytes was ignored and missing bytes were taken as
zero. Truncated ids, even the empty string, parsed as some other id.
---
 common/src/payment_id.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index fef0a68..65ade40 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -108,7 +108,10 @@ impl core::str::FromStr for PaymentId {
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if len != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From 32995315aeb3c799c90ebfc8b1234f0f9eba1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:57 +0000
Subject: [PATCH 03/18] fix: charge only mandatory fees on disputes when a
 recipient has both kinds

---
 pallets/payments/src/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..82a96e6 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,8 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		// Fees that are charged on disputes are not merged with those that are not
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +134,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From 21c0c29134faf94e16c105e0cc4b45810a37200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:57 +0000
Subject: [PATCH 04/18] fix: accept only payments that were requested

---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..258bd52 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,10 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From b948c1e783a7a46b0ee43f6f0f141245dc602086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:57 +0000
Subject: [PATCH 05/18] fix: do not reassign a payment id that belongs to
 another sender

---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 258bd52..bccf857 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -528,6 +528,10 @@ impl<T: Config> Pallet<T> {
 		remark: Option<&[u8]>,
 	) -> Result<(T::PaymentId, PaymentDetail<T>), DispatchError> {
 		let payment_id = T::PaymentId::next(sender, &beneficiary).ok_or(Error::<T>::NoPaymentIdAvailable)?;
+		// an id in use by another sender would have its parties overwritten
+		if let Ok((current_sender, _)) = PaymentParties::<T>::get(payment_id) {
+			ensure!(current_sender == *sender, Error::<T>::PaymentAlreadyInProcess);
+		}
 		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 			if let Ok(payment) = maybe_payment {
 				ensure!(
-- 
2.43.0


From 9357f31d5d452d2d7117a41ab1f7178497a65906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:33 +0000
Subject: [PATCH 06/18] fix: let only a community's own admin set its decision
 method

Any community admin could change the way another community votes, as the
origin was never compared with the community being changed.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..2150c88 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -490,7 +490,10 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(
+				T::AdminOrigin::ensure_origin(origin)? == community_id,
+				DispatchError::BadOrigin
+			);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From 406800ff8cc42eee5aa8511900d494d674f3ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:33 +0000
Subject: [PATCH 07/18] fix: do not hand a community to the admin of another
 one

An origin administers a single community. Naming the admin of another
community as the new admin left that other community without one.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2150c88..f7a9cc2 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -402,6 +402,10 @@ pub mod pallet {
 			);
 
 			CommunityIdFor::<T>::remove(origin.caller());
+			ensure!(
+				!CommunityIdFor::<T>::contains_key(&admin_origin),
+				Error::<T>::AlreadyAdmin
+			);
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
 
 			Self::deposit_event(Event::AdminOriginSet {
-- 
2.43.0


From 9af671c07a86b767f36c205d5958b38cecbca629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:33 +0000
Subject: [PATCH 08/18] fix: remove a member only by a membership of their own

Any membership of the community could be released by naming another
member as its holder.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index f7a9cc2..4669076 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -451,7 +451,10 @@ pub mod pallet {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 			let who = T::Lookup::lookup(who)?;
 
-			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From e4106b5611900997f4e2d353d8290c569286418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:33 +0000
Subject: [PATCH 09/18] fix: report the new rank when a member is demoted

---
 pallets/communities/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 4669076..56c634e 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -481,8 +481,10 @@ pub mod pallet {
 		pub fn demote(origin: OriginFor<T>, membership_id: MembershipIdOf<T>) -> DispatchResult {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
-			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
+				.ok_or(Error::<T>::NotAMember)?
+				.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From c6450d3c59f9fa43fcff15f3533a419dd03823c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:33 +0000
Subject: [PATCH 10/18] fix: avoid overflow when computing the approval of a
 tally

Ayes and nays can each be as large as their type allows, so their sum
has to be computed with a wider one.
---
 pallets/communities/src/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..eb88fe5 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,7 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		Perbill::from_rational(self.ayes as u64, 1.max(self.ayes as u64 + self.nays as u64))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From f090870a0125bb2ec79d60185679a231be8ac5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:13 +0000
Subject: [PATCH 11/18] fix: saturate the weight of a vote instead of
 overflowing

The weight is multiplied by the rank of the member, which may exceed
what the type of vote weights holds.
---
 pallets/communities/src/functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/functions.rs b/pallets/communities/src/functions.rs
index 6241feb..1440bfe 100644
--- a/pallets/communities/src/functions.rs
+++ b/pallets/communities/src/functions.rs
@@ -105,7 +105,7 @@ impl<T: Config> Pallet<T> {
 			};
 
 			let vote_weight = VoteWeight::from(vote);
-			tally.add_vote(say, vote_multiplier * vote_weight, vote_weight);
+			tally.add_vote(say, vote_weight.saturating_mul(vote_multiplier), vote_weight);
 
 			CommunityVotes::<T>::insert(poll_index, membership_id, (vote, who));
 			Self::update_locks(who, poll_index, vote, LockUpdateType::Add)
@@ -131,7 +131,7 @@ impl<T: Config> Pallet<T> {
 			};
 
 			let vote_weight = VoteWeight::from(&vote);
-			tally.remove_vote(vote.say(), vote_multiplier * vote_weight, vote_weight);
+			tally.remove_vote(vote.say(), vote_weight.saturating_mul(vote_multiplier), vote_weight);
 
 			CommunityVotes::<T>::remove(poll_index, membership_id);
 			Self::update_locks(&voter, poll_index, &vote, LockUpdateType::Remove)
-- 
2.43.0


From b5ad5c8dedda5271f9a42a3e08ed7d8a9f689fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:13 +0000
Subject: [PATCH 12/18] fix: count the last membership when ids run out

The event left out the membership with the highest possible id.
---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From 4dd95ee1f464621377692de4a8de8415abfb972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:39 +0000
Subject: [PATCH 13/18] fix: let only community accounts administer communities

The account of any pallet's sub-account was taken for the community with
the same number. Accept only sub-accounts of the communities pallet.
---
 runtime/kreivo/src/communities/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..881cd16 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,10 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		PalletId::try_from_sub_account(&a)
+			.filter(|(pallet_id, _)| *pallet_id == CommunityPalletId::get())
+			.map(|(_, id)| id)
+			.ok_or(())
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
-- 
2.43.0


From fdb05f93a1a32328eb7ce9863b1a76c2b2eb53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:39 +0000
Subject: [PATCH 14/18] fix: let only community accounts send messages as a
 community

Sub-accounts of other pallets, like the treasury, were taken for the
community with the same number. Check the pallet they belong to.
---
 runtime/kreivo/src/xcm_config/communities.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..460172d 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -52,9 +52,12 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
+		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
 			return Err(o.clone());
 		};
+		if pallet_id != <T as pallet_communities::Config>::PalletId::get() {
+			return Err(o);
+		}
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
 		Ok(j.into())
-- 
2.43.0


From 23041099998b3413b1872e5cb046bb4c2685395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:39 +0000
Subject: [PATCH 15/18] fix: give no account to pluralities that are not
 communities

Plurality indices above 65535 saturated, and so shared the account of
community 65535. They have no account now.
---
 runtime/kreivo/src/xcm_config/communities.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 460172d..37ec957 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,7 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +17,7 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => Some(Communities::community_account(&(*id).try_into().ok()?)),
 			_ => None,
 		}
 	}
-- 
2.43.0


From d47619a1723bd38135cd78307a761b03a0265781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:39 +0000
Subject: [PATCH 16/18] fix: do not panic on local asset locations with a large
 index

A message can name a local asset with an index above 32 bits. It names
no asset, instead of causing a panic.
---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From 34b6bfca43084d411fbd4031587a779855f8a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:39 +0000
Subject: [PATCH 17/18] fix: credit reserve assets only to the chain that keeps
 them

Any chain could deposit assets of Asset Hub, as where they came from was
ignored. Require them to come from Asset Hub itself.
---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From 299f318ab1bc04598f3f1f17a495975439497a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:39 +0000
Subject: [PATCH 18/18] fix: refuse passkey challenges of blocks to come

The hash of a block that does not exist yet reads as zero, so that
challenge was known in advance. Accept past blocks only.
---
 runtime/kreivo/src/configuration/system_support.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..666148b 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -143,6 +143,7 @@ impl Challenger for UnincludedBlockHashChallenger {
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
 		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		(*cx < System::block_number()).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0

