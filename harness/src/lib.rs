//! Client of the public API: every function below is an entry point of the static analysis.
//! The crate is only type-checked; none of its functions is ever run.
#![allow(clippy::all)]
use sgp4::chrono::NaiveDateTime;
use sgp4::*;

#[cfg(any(feature = "alloc", feature = "std", feature = "serde"))]
pub fn tle(name: Option<String>, line1: &[u8], line2: &[u8]) -> core::result::Result<Elements, TleError> {
    Elements::from_tle(name, line1, line2)
}
#[cfg(not(any(feature = "alloc", feature = "std", feature = "serde")))]
pub fn tle(line1: &[u8], line2: &[u8]) -> core::result::Result<Elements, TleError> {
    Elements::from_tle(line1, line2)
}
#[cfg(any(feature = "alloc", feature = "std", feature = "serde"))]
pub fn two_les(text: &str) -> core::result::Result<Vec<Elements>, TleError> {
    parse_2les(text)
}
#[cfg(any(feature = "alloc", feature = "std", feature = "serde"))]
pub fn three_les(text: &str) -> core::result::Result<Vec<Elements>, TleError> {
    parse_3les(text)
}
pub fn epoch_of(datetime: &NaiveDateTime) -> f64 {
    julian_years_since_j2000(datetime)
}
pub fn epoch_of_afspc(datetime: &NaiveDateTime) -> f64 {
    julian_years_since_j2000_afspc_compatibility_mode(datetime)
}
pub fn elements_epoch(elements: &Elements) -> f64 {
    elements.epoch()
}
pub fn elements_epoch_afspc(elements: &Elements) -> f64 {
    elements.epoch_afspc_compatibility_mode()
}
pub fn sidereal_iau(epoch: f64) -> f64 {
    iau_epoch_to_sidereal_time(epoch)
}
pub fn sidereal_afspc(epoch: f64) -> f64 {
    afspc_epoch_to_sidereal_time(epoch)
}
pub fn to_minutes(
    elements: &Elements,
    datetime: &NaiveDateTime,
) -> core::result::Result<MinutesSinceEpoch, DatetimeToMinutesSinceEpochError> {
    elements.datetime_to_minutes_since_epoch(datetime)
}
pub fn to_datetime(
    elements: &Elements,
    minutes: &MinutesSinceEpoch,
) -> core::result::Result<NaiveDateTime, MinutesSinceEpochToDatetimeError> {
    elements.minutes_since_epoch_to_datetime(minutes)
}
pub fn wgs84() -> Geopotential {
    WGS84
}
pub fn wgs72() -> Geopotential {
    WGS72
}
pub fn kozai(g: &Geopotential, i: f64, o: f64, e: f64, w: f64, m: f64, n: f64) -> core::result::Result<Orbit, KozaiElementsError> {
    Orbit::from_kozai_elements(g, i, o, e, w, m, n)
}
pub fn new(
    g: Geopotential,
    sidereal: fn(f64) -> f64,
    epoch: f64,
    drag: f64,
    orbit: Orbit,
) -> core::result::Result<Constants, OutOfRangeEpochEccentricity> {
    Constants::new(g, sidereal, epoch, drag, orbit)
}
pub fn from_elements(elements: &Elements) -> core::result::Result<Constants, ElementsError> {
    Constants::from_elements(elements)
}
pub fn from_elements_afspc(elements: &Elements) -> core::result::Result<Constants, ElementsError> {
    Constants::from_elements_afspc_compatibility_mode(elements)
}
pub fn initial_state(constants: &Constants) -> Option<ResonanceState> {
    constants.initial_state()
}
pub fn state_time(state: &ResonanceState) -> f64 {
    state.t()
}
pub fn propagate(constants: &Constants, t: MinutesSinceEpoch) -> core::result::Result<Prediction, Error> {
    constants.propagate(t)
}
pub fn propagate_afspc(constants: &Constants, t: MinutesSinceEpoch) -> core::result::Result<Prediction, Error> {
    constants.propagate_afspc_compatibility_mode(t)
}
pub fn propagate_from_state(
    constants: &Constants,
    t: MinutesSinceEpoch,
    state: Option<&mut ResonanceState>,
    afspc: bool,
) -> core::result::Result<Prediction, Error> {
    constants.propagate_from_state(t, state, afspc)
}
pub fn propagate_fresh(constants: &Constants, t: f64, afspc: bool) -> core::result::Result<Prediction, Error> {
    let mut state = constants.initial_state();
    constants.propagate_from_state(MinutesSinceEpoch(t), state.as_mut(), afspc)
}
// compositions: initialise, then propagate
pub fn new_propagate(
    g: Geopotential,
    sidereal: fn(f64) -> f64,
    epoch: f64,
    drag: f64,
    orbit: Orbit,
    t: f64,
    afspc: bool,
) -> core::result::Result<core::result::Result<Prediction, Error>, OutOfRangeEpochEccentricity> {
    match Constants::new(g, sidereal, epoch, drag, orbit) {
        Ok(constants) => {
            let mut state = constants.initial_state();
            Ok(constants.propagate_from_state(MinutesSinceEpoch(t), state.as_mut(), afspc))
        }
        Err(error) => Err(error),
    }
}
pub fn default_mode(elements: &Elements, t: f64) -> core::result::Result<core::result::Result<Prediction, Error>, ElementsError> {
    match Constants::from_elements(elements) {
        Ok(constants) => Ok(constants.propagate(MinutesSinceEpoch(t))),
        Err(error) => Err(error),
    }
}
pub fn afspc_mode(elements: &Elements, t: f64) -> core::result::Result<core::result::Result<Prediction, Error>, ElementsError> {
    match Constants::from_elements_afspc_compatibility_mode(elements) {
        Ok(constants) => Ok(constants.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t))),
        Err(error) => Err(error),
    }
}
// a first call to t1 with a fresh state, then a second call to t2 with the state it left
pub fn new_propagate_twice(
    g: Geopotential,
    sidereal: fn(f64) -> f64,
    epoch: f64,
    drag: f64,
    orbit: Orbit,
    mut state: Option<ResonanceState>,
    t: f64,
    afspc: bool,
) -> core::result::Result<(core::result::Result<Prediction, Error>, Option<ResonanceState>), OutOfRangeEpochEccentricity> {
    match Constants::new(g, sidereal, epoch, drag, orbit) {
        Ok(constants) => {
            let result = constants.propagate_from_state(MinutesSinceEpoch(t), state.as_mut(), afspc);
            Ok((result, state))
        }
        Err(error) => Err(error),
    }
}

// error texts
pub fn show_tle_error(e: &TleError, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}
pub fn show_error(e: &Error, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}
pub fn show_kozai_error(e: &KozaiElementsError, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}
pub fn show_eccentricity_error(e: &OutOfRangeEpochEccentricity, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}
pub fn show_elements_error(e: &ElementsError, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}
pub fn show_to_minutes_error(e: &DatetimeToMinutesSinceEpochError, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}
pub fn show_to_datetime_error(e: &MinutesSinceEpochToDatetimeError, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(e, f)
}

#[cfg(feature = "serde")]
pub mod format;
