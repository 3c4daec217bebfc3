// Compiled, never run: accepted by the compiler only if the public types can be shared between threads, hold no
// interior mutability, and propagation takes the propagator by shared reference.
#![no_std]
use core::panic::RefUnwindSafe;
use core::result::Result;
use sgp4::*;

fn shareable<T: Send + Sync + RefUnwindSafe + 'static>() {}

pub fn types() {
    shareable::<Constants>();
    shareable::<Elements>();
    shareable::<Orbit>();
    shareable::<Geopotential>();
    shareable::<Prediction>();
    shareable::<ResonanceState>();
    shareable::<MinutesSinceEpoch>();
    shareable::<Error>();
    shareable::<ElementsError>();
    shareable::<KozaiElementsError>();
    shareable::<OutOfRangeEpochEccentricity>();
    shareable::<TleError>();
    #[cfg(feature = "control")]
    shareable::<core::cell::Cell<f64>>();
}

pub fn receivers() {
    let _: fn(&Constants) -> Option<ResonanceState> = Constants::initial_state;
    let _: fn(&Constants, MinutesSinceEpoch) -> Result<Prediction, Error> = Constants::propagate;
    let _: fn(&Constants, MinutesSinceEpoch) -> Result<Prediction, Error> = Constants::propagate_afspc_compatibility_mode;
    let _: fn(&Constants, MinutesSinceEpoch, Option<&mut ResonanceState>, bool) -> Result<Prediction, Error> = Constants::propagate_from_state;
    let _: fn(&Elements) -> Result<Constants, ElementsError> = Constants::from_elements;
    let _: fn(&Elements) -> Result<Constants, ElementsError> = Constants::from_elements_afspc_compatibility_mode;
}
