//! Changing referendum tracks, as in fc-traits-tracks.
use crate::referenda::{TrackInfo, TracksInfo};
use crate::sp_runtime::DispatchResult;

pub trait MutateTracks<Balance, Moment>: TracksInfo<Balance, Moment> {
    fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, origin: Self::RuntimeOrigin) -> DispatchResult;
    fn update(id: Self::Id, info: TrackInfo<Balance, Moment>) -> DispatchResult;
    fn remove(id: Self::Id, origin: Self::RuntimeOrigin) -> DispatchResult;
}
