//! Compile-time facts observed on whatever the current tree says: is a type shareable?
use std::marker::PhantomData;
pub struct W<T>(pub PhantomData<T>);
pub trait No {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> No for &W<T> {}
impl<T: Send + Sync> W<T> {
    pub fn shareable(&self) -> bool {
        true
    }
}
#[macro_export]
macro_rules! shareable {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::probe::No;
        (&$crate::probe::W::<$t>(std::marker::PhantomData)).shareable()
    }};
}
pub fn table() -> Vec<(&'static str, bool)> {
    use geokit::*;
    vec![
        ("ellipsoid", shareable!(geodesy::Ellipsoid)),
        ("prime meridian", shareable!(geodesy::PrimeMeridian)),
        ("datum", shareable!(geodesy::GeodeticDatum)),
        ("geocentric CRS", shareable!(crs::geocentric::GeocentricCrs)),
        ("geographic CRS", shareable!(crs::geographic::GeographicCrs)),
        ("projected CRS", shareable!(crs::projected::ProjectedCrs)),
        ("geocentric axes", shareable!(cs::cartesian::geocentric::GeocentricAxes)),
        ("geodetic axes", shareable!(cs::geodetic::GeodeticAxes)),
        ("projected axes", shareable!(cs::cartesian::projected::ProjectedAxes)),
        ("projection specification", shareable!(projections::ProjectionSpec)),
        ("Vincenty solver", shareable!(geodesy::geodesics::vincenty::VincentyGeodesicSolver<'static>)),
        ("Rapp solver", shareable!(geodesy::geodesics::rapp::RappIterativeGeodisicSolver<'static>)),
        ("Karney solver", shareable!(geodesy::geodesics::karney::KarneyGeodesicSolver<'static>)),
        ("line string", shareable!(geometry::coordinate::curve::line_string::LineString)),
        ("point", shareable!(geometry::primitive::point::Point)),
    ]
}
