//! Collection configuration, as in pallet-nfts.
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
pub struct CollectionSettings(pub u64);
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
pub enum MintType<CollectionId> {
    #[default]
    Issuer,
    Public,
    HolderOf(CollectionId),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct MintSettings<Price, BlockNumber, CollectionId> {
    pub mint_type: MintType<CollectionId>,
    pub price: Option<Price>,
    pub start_block: Option<BlockNumber>,
    pub end_block: Option<BlockNumber>,
    pub default_item_settings: u64,
}
impl<P, B, C> Default for MintSettings<P, B, C> {
    fn default() -> Self {
        MintSettings { mint_type: MintType::Issuer, price: None, start_block: None, end_block: None, default_item_settings: 0 }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct CollectionConfig<Price, BlockNumber, CollectionId> {
    pub settings: CollectionSettings,
    pub max_supply: Option<u32>,
    pub mint_settings: MintSettings<Price, BlockNumber, CollectionId>,
}
