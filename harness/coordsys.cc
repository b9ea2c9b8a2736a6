// coordinate systems found in a dataset by the CF conventions
#include "harness.h"
#include "grid.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/coordSys/verticalTransform/VerticalTransformation.h"
#include "fimex/CoordinateSystemSliceBuilder.h"
#include "fimex/CDMReaderUtils.h"
#include "fimex/TimeUnit.h"
#include <algorithm>
typedef CoordinateAxis A;
typedef std::vector<std::string> VS;
typedef std::set<std::string> SS;
static std::string ST(const char* c) { return c; }
static std::string mixed(std::string s) { if (rnd(0, 3) == 0) for (char& c : s) if (rnd(0, 1)) c = toupper(c); return s; }
template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + rnd(0, (int)l.size() - 1)); }
// the projection of a dataset and geographical coordinates generated from it
static void coordinates()
{
    auto r = std::make_shared<MemReader>();
    const int nx = rnd(1, 4), ny = rnd(1, 4), q = rnd(0, 3); // 3: latitude and longitude
    const bool swap = rnd(0, 1), taken = rnd(0, 1);
    const std::string X = one<std::string>({"x", "a", "xc"}), Y = one<std::string>({"y", "b", "yc"});
    if (swap) r->dim(Y, ny), r->dim(X, nx); else r->dim(X, nx), r->dim(Y, ny);
    std::vector<double> xs(nx), ys(ny);
    const double d = q >= 2 ? 1 : 100000;
    for (int i = 0; i < nx; i++) xs[i] = d * (i + rnd(-5, 5));
    for (int i = 0; i < ny; i++) ys[i] = d * (i + rnd(-5, 5));
    if (rnd(0, 1)) r->var("other", CDM_DOUBLE, {X}, xs);
    r->var(X, CDM_DOUBLE, {X}, xs); r->var(Y, CDM_DOUBLE, {Y}, ys);
    const std::string ux = q == 3 ? one<std::string>({"degrees_east", "degree_east", "degrees_E", "degree_E", "degreesE", "degreeE"}) : q == 2 ? "degrees" : "m";
    const std::string uy = q == 3 ? one<std::string>({"degrees_north", "degree_north", "degrees_N", "degree_N", "degreesN", "degreeN"}) : q == 2 ? "degree" : "m";
    r->att(X, "units", ux); r->att(Y, "units", uy);
    if (q == 2) r->att(X, "standard_name", ST("grid_longitude")), r->att(Y, "standard_name", ST("grid_latitude"));
    else if (q < 2) r->att(X, "standard_name", ST("projection_x_coordinate")), r->att(Y, "standard_name", ST("projection_y_coordinate"));
    if (q == 0) { r->var("P", CDM_INT, {}, {0}); r->att("P", "grid_mapping_name", ST("polar_stereographic")); r->att("P", "straight_vertical_longitude_from_pole", 10.); r->att("P", "latitude_of_projection_origin", 90.); r->att("P", "standard_parallel", 60.); r->att("P", "earth_radius", 6371000.); }
    if (q == 1) { r->var("P", CDM_INT, {}, {0}); r->att("P", "grid_mapping_name", ST("mercator")); r->att("P", "longitude_of_projection_origin", 5.); r->att("P", "standard_parallel", 30.); r->att("P", "earth_radius", 6371000.); }
    if (q == 2) { r->var("P", CDM_INT, {}, {0}); r->att("P", "grid_mapping_name", ST("rotated_latitude_longitude")); r->att("P", "grid_north_pole_longitude", 20.); r->att("P", "grid_north_pole_latitude", 30.); r->att("P", "earth_radius", 6371000.); }
    VS with;
    for (int i = 0; i < 3; i++) {
        const std::string n = "v" + S(i);
        VS sh;
        if (i == 0 || rnd(0, 3)) { sh.push_back(X); sh.push_back(Y); if (rnd(0, 1)) std::swap(sh[0], sh[1]); }
        r->getInternalCDM().addVariable(CDMVariable(n, CDM_FLOAT, sh));
        if (q < 3 && (i == 0 || rnd(0, 3))) { r->att(n, "grid_mapping", ST("P")); }
    }
    if (taken) r->var("lon", CDM_DOUBLE, {}, {0});
    ::begin("projection " + S(q) + (taken ? " lon taken" : "") + (swap ? " y first" : ""));
    CDM& cdm = r->getInternalCDM();
    std::string p, x, y, xu, yu;
    if (rnd(0, 3) == 0 && q < 3) { // a dataset with several projections or axes says so
        CDM c2(cdm);
        const int k = rnd(0, 2);
        CDMVariable w("W", CDM_INT, VS{});
        c2.addVariable(w);
        if (k == 0) c2.addAttribute("W", CDMAttribute("grid_mapping_name", one<std::string>({"mercator", "polar_stereographic", "rotated_latitude_longitude"})));
        else c2.addAttribute("W", CDMAttribute("standard_name", ST(q == 2 ? k == 1 ? "grid_longitude" : "grid_latitude" : k == 1 ? "projection_x_coordinate" : "projection_y_coordinate")));
        CHECK(!c2.getProjectionAndAxesUnits(p, x, y, xu, yu), "second " + S(k) + " not noticed");
        CHECK((p == "P" || (k == 0 && p == "W")) && (x == X || (k == 1 && x == "W")) && (y == Y || (k == 2 && y == "W")), "one of several");
    }
    CHECK(cdm.getProjectionAndAxesUnits(p, x, y, xu, yu), "several projections found");
    CHECK(p == (q == 3 ? "latitude_longitude" : "P") && x == X && y == Y && xu == ux && yu == uy, "projection " + p + " axes " + x + " (" + xu + ") " + y + " (" + yu + ")");
    if (q == 3) return;
    const auto list = listCoordinateSystems(r);
    SS in;
    for (const auto& v : cdm.getVariables()) if (auto cs = findCompleteCoordinateSystemFor(list, v.getName())) if (cs->isSimpleSpatialGridded() && cs->hasProjection()) in.insert(v.getName());
    CHECK(in.count("v0"), "no coordinate system");
    const std::string pr = findCompleteCoordinateSystemFor(list, "v0")->getProjection()->getProj4String();
    generateProjectionCoordinates(r);
    const std::string lo = taken ? "lon0" : "lon", la = "lat";
    CHECK(cdm.hasVariable(lo) && cdm.hasVariable(la) && cdm.getUnits(lo) == "degree_east" && cdm.getUnits(la) == "degree_north", "names of the coordinates");
    CHECK(cdm.getAttribute(lo, "standard_name").getStringValue() == "longitude" && cdm.getAttribute(la, "standard_name").getStringValue() == "latitude", "standard names of the coordinates");
    CHECK(cdm.getVariable(lo).getShape() == (VS{X, Y}) && cdm.getVariable(la).getShape() == (VS{X, Y}), "shape of the coordinates");
    auto dlo = r->getData(lo)->asDouble(), dla = r->getData(la)->asDouble();
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        double a = xs[i], b = ys[j];
        reproject::reproject_values(pr, MIFI_WGS84_LATLON_PROJ4, &a, &b, 1);
        CHECK(std::fabs(dlo[j * nx + i] - a) < 1e-7 && std::fabs(dla[j * nx + i] - b) < 1e-7, "place of cell " + S(i) + "," + S(j));
    }
    for (const auto& v : cdm.getVariables()) {
        CDMAttribute at;
        const bool has = cdm.getAttribute(v.getName(), "coordinates", at);
        CHECK(has == (in.count(v.getName()) > 0) && (!has || at.getStringValue() == lo + " " + la), "coordinates of " + v.getName());
    }
    for (const auto& n : in) { std::string b, c; CHECK(cdm.getLatitudeLongitude(n, b, c) && b == la && c == lo, "geographical coordinates of " + n); }
}
// components of vectors
static void vectors()
{
    static const char* NAMES[][3] = {
        {"x_wind", "y_wind", "x"}, {"x_wind_of_gust", "y_wind_of_gust", "x"}, {"grid_eastward_wind", "grid_northward_wind", "x"}, {"sea_water_x_velocity", "sea_water_y_velocity", "x"},
        {"barotropic_sea_water_x_velocity", "barotropic_sea_water_y_velocity", "x"}, {"sea_ice_x_velocity", "sea_ice_y_velocity", "x"}, {"sea_ice_x_transport", "sea_ice_y_transport", "x"},
        {"surface_geostrophic_sea_water_x_velocity", "surface_geostrophic_sea_water_y_velocity", "x"}, {"x_sea_water_velocity", "y_sea_water_velocity", "x"}, {"ocean_heat_x_transport", "ocean_heat_y_transport", "x"},
        {"eastward_wind", "northward_wind", "lon"}, {"eastward_wind_shear", "northward_wind_shear", "lon"}, {"geostrophic_eastward_wind", "geostrophic_northward_wind", "lon"},
        {"tendency_of_eastward_wind", "tendency_of_northward_wind", "lon"}, {"tendency_of_eastward_wind_due_to_advection", "tendency_of_northward_wind_due_to_advection", "lon"},
        {"tendency_of_eastward_wind_due_to_convection", "tendency_of_northward_wind_due_to_convection", "lon"}, {"eastward_sea_water_velocity", "northward_sea_water_velocity", "lon"},
        {"eastward_sea_ice_velocity", "northward_sea_ice_velocity", "lon"}, {"surface_downward_eastward_stress", "surface_downward_northward_stress", "lon"},
        {"eastward_water_vapor_flux", "northward_water_vapor_flux", "lon"}, {"eastward_water_vapor_flux_in_air", "northward_water_vapor_flux_in_air", "lon"},
        {"bolus_sea_water_x_velocity", "bolus_sea_water_y_velocity", "x"},
        {"sea_ice_x_displacement", "sea_ice_y_displacement", "x"},
        {"sea_surface_wave_stokes_drift_x_velocity", "sea_surface_wave_stokes_drift_y_velocity", "x"},
        {"land_ice_x_velocity", "land_ice_y_velocity", "x"},
        {"land_ice_basal_x_velocity", "land_ice_basal_y_velocity", "x"},
        {"land_ice_vertical_mean_x_velocity", "land_ice_vertical_mean_y_velocity", "x"},
        {"ocean_salt_x_transport", "ocean_salt_y_transport", "x"},
        {"ocean_volume_x_transport", "ocean_volume_y_transport", "x"},
        {"atmosphere_eastward_stress_due_to_gravity_wave_drag", "atmosphere_northward_stress_due_to_gravity_wave_drag", "lon"},
        {"baroclinic_eastward_sea_water_velocity", "baroclinic_northward_sea_water_velocity", "lon"},
        {"barotropic_eastward_sea_water_velocity", "barotropic_northward_sea_water_velocity", "lon"},
        {"bolus_eastward_sea_water_velocity", "bolus_northward_sea_water_velocity", "lon"},
        {"downward_eastward_momentum_flux_in_air", "downward_northward_momentum_flux_in_air", "lon"},
        {"downward_eastward_momentum_flux_in_air_due_to_diffusion", "downward_northward_momentum_flux_in_air_due_to_diffusion", "lon"},
        {"downward_eastward_stress_at_sea_ice_base", "downward_northward_stress_at_sea_ice_base", "lon"},
        {"eastward_atmosphere_dry_static_energy_transport_across_unit_distance", "northward_atmosphere_dry_static_energy_transport_across_unit_distance", "lon"},
        {"eastward_atmosphere_water_transport_across_unit_distance", "northward_atmosphere_water_transport_across_unit_distance", "lon"},
        {"eastward_atmosphere_water_vapor_transport_across_unit_distance", "northward_atmosphere_water_vapor_transport_across_unit_distance", "lon"},
        {"eastward_derivative_of_northward_sea_ice_velocity", "northward_derivative_of_northward_sea_ice_velocity", "lon"},
        {"eastward_mass_flux_of_air", "northward_mass_flux_of_air", "lon"},
        {"eastward_momentum_flux_correction", "northward_momentum_flux_correction", "lon"},
        {"eastward_sea_ice_displacement", "northward_sea_ice_displacement", "lon"},
        {"eastward_sea_water_velocity_assuming_no_tide", "northward_sea_water_velocity_assuming_no_tide", "lon"},
        {"eastward_transformed_eulerian_mean_air_velocity", "northward_transformed_eulerian_mean_air_velocity", "lon"},
        {"eastward_transformed_eulerian_mean_velocity", "northward_transformed_eulerian_mean_velocity", "lon"},
        {"eastward_water_vapor_transport_across_unit_distance_in_atmosphere_layer", "northward_water_vapor_transport_across_unit_distance_in_atmosphere_layer", "lon"},
        {"product_of_eastward_sea_water_velocity_and_salinity", "product_of_northward_sea_water_velocity_and_salinity", "lon"},
        {"product_of_eastward_sea_water_velocity_and_temperature", "product_of_northward_sea_water_velocity_and_temperature", "lon"},
        {"product_of_eastward_wind_and_air_temperature", "product_of_northward_wind_and_air_temperature", "lon"},
        {"product_of_eastward_wind_and_geopotential_height", "product_of_northward_wind_and_geopotential_height", "lon"},
        {"product_of_eastward_wind_and_omega", "product_of_northward_wind_and_omega", "lon"},
        {"product_of_eastward_wind_and_specific_humidity", "product_of_northward_wind_and_specific_humidity", "lon"},
        {"product_of_eastward_wind_and_upward_air_velocity", "product_of_northward_wind_and_upward_air_velocity", "lon"},
        {"surface_eastward_sea_water_velocity", "surface_northward_sea_water_velocity", "lon"},
        {"surface_geostrophic_eastward_sea_water_velocity", "surface_geostrophic_northward_sea_water_velocity", "lon"},
        {"surface_eastward_geostrophic_sea_water_velocity", "surface_northward_geostrophic_sea_water_velocity", "lon"},
        {"surface_geostrophic_eastward_sea_water_velocity_assuming_sea_level_for_geoid", "surface_geostrophic_northward_sea_water_velocity_assuming_sea_level_for_geoid", "lon"},
        {"surface_eastward_geostrophic_sea_water_velocity_assuming_sea_level_for_geoid", "surface_northward_geostrophic_sea_water_velocity_assuming_sea_level_for_geoid", "lon"},
        {"tendency_of_eastward_wind_due_to_diffusion", "tendency_of_northward_wind_due_to_diffusion", "lon"},
        {"tendency_of_eastward_wind_due_to_eliassen_palm_flux_divergence", "tendency_of_northward_wind_due_to_eliassen_palm_flux_divergence", "lon"},
        {"tendency_of_eastward_wind_due_to_gravity_wave_drag", "tendency_of_northward_wind_due_to_gravity_wave_drag", "lon"},
        {"tendency_of_eastward_wind_due_to_nonorographic_gravity_wave_drag", "tendency_of_northward_wind_due_to_nonorographic_gravity_wave_drag", "lon"},
        {"tendency_of_eastward_wind_due_to_numerical_artefacts", "tendency_of_northward_wind_due_to_numerical_artefacts", "lon"},
        {"tendency_of_eastward_wind_due_to_orographic_gravity_wave_drag", "tendency_of_northward_wind_due_to_orographic_gravity_wave_drag", "lon"},
        {"upward_eastward_momentum_flux_in_air_due_to_nonorographic_eastward_gravity_waves", "upward_northward_momentum_flux_in_air_due_to_nonorographic_northward_gravity_waves", "lon"},
        {"upward_flux_of_eastward_momentum_due_to_nonorographic_eastward_gravity_waves", "upward_flux_of_northward_momentum_due_to_nonorographic_northward_gravity_waves", "lon"},
        {"upward_eastward_momentum_flux_in_air_due_to_nonorographic_westward_gravity_waves", "upward_northward_momentum_flux_in_air_due_to_nonorographic_westward_gravity_waves", "lon"},
        {"upward_flux_of_eastward_momentum_due_to_nonorographic_westward_gravity_waves", "upward_flux_of_northward_momentum_due_to_nonorographic_westward_gravity_waves", "lon"},
        {"upward_eastward_momentum_flux_in_air_due_to_orographic_gravity_waves", "upward_northward_momentum_flux_in_air_due_to_orographic_gravity_waves", "lon"},
        {"upward_flux_of_eastward_momentum_due_to_orographic_gravity_waves", "upward_flux_of_northward_momentum_due_to_orographic_gravity_waves", "lon"},
        {"upward_eastward_stress_at_sea_ice_base", "upward_northward_stress_at_sea_ice_base", "lon"}};
    const int NN = sizeof(NAMES) / sizeof(NAMES[0]);
    auto r = std::make_shared<MemReader>();
    r->dim("x", 3); r->dim("y", 2); r->dim("k", 2);
    struct C { std::string name, sn; VS shape; std::string other, dir; };
    std::vector<C> cs;
    const int first = rnd(0, NN - 1);
    std::set<std::pair<int, VS>> used;
    for (int i = 0; i < 4; i++) {
        const int k = (first + (rnd(0, 1) ? i : rnd(0, NN - 1))) % NN;
        const VS sh = one<VS>({{"x", "y"}, {"x", "y", "k"}, {"y", "x"}});
        if (!used.insert({k, sh}).second) continue;
        const bool a = rnd(0, 5) != 0, b = rnd(0, 5) != 0;
        const std::string n = "v" + S(i);
        if (a) cs.push_back({n + "a", NAMES[k][0], sh, b ? n + "b" : "", NAMES[k][2]});
        if (b) cs.push_back({n + "b", NAMES[k][1], sh, a ? n + "a" : "", ST(NAMES[k][2]) == "x" ? "y" : "lat"});
    }
    // a component without counterpart of its shape
    if (cs.empty()) return;
    std::shuffle(cs.begin(), cs.end(), RNG);
    std::string d = "vectors";
    for (const auto& c : cs) { r->getInternalCDM().addVariable(CDMVariable(c.name, CDM_FLOAT, c.shape)); r->att(c.name, "standard_name", c.sn); d += " " + c.name + S(c.shape) + "=" + c.sn; }
    r->var("t", CDM_FLOAT, {"x", "y"}, std::vector<double>(6)); r->att("t", "standard_name", ST("air_temperature"));
    ::begin(d);
    for (int k = rnd(1, 2); k > 0; k--) enhanceVectorProperties(r);
    const CDM& cdm = r->getCDM();
    CHECK(!cdm.getVariable("t").isSpatialVector(), "temperature is a vector");
    for (const auto& c : cs) {
        const CDMVariable& v = cdm.getVariable(c.name);
        CHECK(v.getSpatialVectorCounterpart() == c.other, c.name + " has the counterpart " + v.getSpatialVectorCounterpart() + " not " + c.other);
        if (!c.other.empty()) CHECK(v.getSpatialVectorDirection() == CDMVariable::vectorDirectionFromString(c.dir), "direction of " + c.name);
        else CHECK(!v.isSpatialVector(), c.name + " is a vector");
    }
}
// datasets of the WRF model, with times as texts
struct WrfReader : public MemReader
{
    std::vector<std::string> times;
    using MemReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override { return n == "Times" ? createData(times.at(pos)) : MemReader::getDataSlice(n, pos); }
    DataPtr getDataSlice(const std::string& n, const SliceBuilder& sb) override
    {
        if (n != "Times") return MemReader::getDataSlice(n, sb);
        CHECK(sb.getDimensionStartPositions().at(1) < times.size() && sb.getDimensionSizes().at(1) == 1, "request of one time");
        return createData(times.at(sb.getDimensionStartPositions().at(1)).substr(sb.getDimensionStartPositions().at(0), sb.getDimensionSizes().at(0)));
    }
};
static void wrf()
{
    auto r = std::make_shared<WrfReader>();
    const int mp = one<int>({1, 2, 3, 6}), nx = rnd(1, 5), ny = rnd(1, 5), nz = rnd(1, 3), nt = rnd(1, 4);
    const double clon = rnd(-170, 170), clat = rnd(-70, 70), slon = mp == 6 ? rnd(-60, 60) : clon + rnd(-20, 20), lat1 = rnd(10, 60), lat2 = lat1 + rnd(1, 20), dx = rnd(1, 40) * 500, dy = rnd(1, 40) * 500, mlat = rnd(-60, 60), plat = rnd(20, 90), plon = rnd(-90, 180);
    const bool times = rnd(0, 3) != 0, wstag = rnd(0, 1), sstag = rnd(0, 1), bot = rnd(0, 1), bstag = rnd(0, 1), other = rnd(0, 1), own = rnd(0, 3) == 0;
    r->dim("west_east", nx); r->dim("south_north", ny);
    if (wstag) r->dim("west_east_stag", nx + 1);
    if (sstag) r->dim("south_north_stag", ny + 1);
    if (bot) r->dim("bottom_top", nz);
    if (bstag) r->dim("bottom_top_stag", nz + 1);
    if (other) r->dim("soil_layers", 2);
    r->dim("Time", nt, true);
    CDM& cdm = r->getInternalCDM();
    const std::string G = CDM::globalAttributeNS();
    auto att = [&](const char* n, auto v) { cdm.addAttribute(G, CDMAttribute(n, v)); };
    att("MAP_PROJ", mp); att("TRUELAT1", (float)lat1); att("TRUELAT2", (float)lat2); att("CEN_LAT", (float)clat); att("CEN_LON", (float)clon); att("STAND_LON", (float)slon); att("MOAD_CEN_LAT", (float)mlat);
    att("POLE_LAT", (float)plat); att("POLE_LON", (float)plon); att("DX", (float)dx); att("DY", (float)dy); att("START_DATE", ST("2011-02-27_06:00:00")); att("SIMULATION_START_DATE", ST("2011-02-27_00:00:00"));
    const int guess = rnd(0, 2) * 30;
    if (guess) att("TIME_STEP_MN", (float)guess);
    const int step = rnd(1, 8) * 15; // minutes
    if (times) {
        r->dim("DateStrLen", 19);
        for (int i = 0; i < nt; i++) {
            const int m = 6 * 60 + i * step, day = 27 + m / 1440;
            char buf[32];
            snprintf(buf, sizeof buf, "2011-%02d-%02d_%02d:%02d:00", day > 28 ? 3 : 2, day > 28 ? day - 28 : day, m / 60 % 24, m % 60);
            r->times.push_back(buf);
        }
        r->getInternalCDM().addVariable(CDMVariable("Times", CDM_STRING, {"DateStrLen", "Time"}));
    }
    std::vector<double> ownx(nx);
    for (int i = 0; i < nx; i++) ownx[i] = 7 + i * 1000.;
    if (own) r->var("west_east", CDM_DOUBLE, {"west_east"}, ownx);
    std::map<std::string, VS> sh;
    std::string d = "wrf projection " + S(mp) + " centre " + S(clon) + " " + S(clat) + " lon " + S(slon) + " lats " + S(lat1) + " " + S(lat2) + " " + S(mlat) + " d " + S(dx) + " " + S(dy) + " n " + S(nx) + " " + S(ny) + " " + S(nt) + (times ? " times" : "") + " step " + S(step) + " guess " + S(guess);
    for (int i = 0; i < 5; i++) {
        VS s;
        s.push_back(wstag && rnd(0, 2) == 0 ? "west_east_stag" : "west_east");
        s.push_back(sstag && rnd(0, 2) == 0 ? "south_north_stag" : "south_north");
        if (rnd(0, 1) && (bot || bstag)) s.push_back(bot && (!bstag || rnd(0, 1)) ? "bottom_top" : "bottom_top_stag");
        else if (other && rnd(0, 3) == 0) s.push_back("soil_layers");
        if (i && rnd(0, 4) == 0) s.erase(s.begin() + rnd(0, 1));
        if (rnd(0, 1)) s.push_back("Time");
        const std::string n = one<std::string>({"U", "V", "UAH", "VAH", "T2", "PSFC"});
        if (sh.count(n)) continue;
        sh[n] = s;
        r->getInternalCDM().addVariable(CDMVariable(n, CDM_FLOAT, s));
        d += " " + n + S(s);
    }
    ::begin(d);
    auto value = [&](const std::string& n, size_t i) { auto a = r->getData(n)->asDouble(); return a[i]; };
    for (int pass = 0; pass < 2; pass++) {
        const auto list = listCoordinateSystems(r);
        for (const auto& v : sh) {
            auto has = [&](const char* a) { return std::count(v.second.begin(), v.second.end(), a) > 0; };
            const std::string X = has("west_east") ? "west_east" : has("west_east_stag") ? "west_east_stag" : "", Y = has("south_north") ? "south_north" : has("south_north_stag") ? "south_north_stag" : "";
            const auto cs = findCompleteCoordinateSystemFor(list, v.first);
            CHECK((cs != 0) == (!X.empty() && !Y.empty()), "coordinate system of " + v.first);
            if (!cs) continue;
            CHECK(cs->isSimpleSpatialGridded() && cs->hasProjection(), "grid of " + v.first);
            CHECK(cs->getGeoXAxis() && cs->getGeoXAxis()->getName() == X && cs->getGeoYAxis() && cs->getGeoYAxis()->getName() == Y, "horizontal axes of " + v.first);
            const std::string Z = has("bottom_top") ? "bottom_top" : has("bottom_top_stag") ? "bottom_top_stag" : "";
            CHECK((cs->getGeoZAxis() ? cs->getGeoZAxis()->getName() : "") == Z, "vertical axis of " + v.first);
            CHECK((cs->getTimeAxis() ? cs->getTimeAxis()->getName() : "") == (has("Time") ? "Time" : ""), "time axis of " + v.first);
            if (!Z.empty()) for (int i = 0; i < nz; i++) CHECK(value(Z, i) == i, "levels");
            const size_t mx = cdm.getDimension(X).getLength(), my = cdm.getDimension(Y).getLength();
            const double sx = mp == 6 ? dx / 6370000 * 180 / M_PI : dx, sy = mp == 6 ? dy / 6370000 * 180 / M_PI : dy, tol = mp == 6 ? 1e-4 : 3;
            if (X == "west_east" && own) for (int i = 0; i < nx; i++) CHECK(value(X, i) == ownx[i], "the axis of the dataset is replaced");
            else for (size_t i = 1; i < mx; i++) CHECK(close_(value(X, i) - value(X, i - 1), sx, 1e-3, tol), "distance of columns " + S(value(X, i) - value(X, i - 1)) + " not " + S(sx));
            for (size_t i = 1; i < my; i++) CHECK(close_(value(Y, i) - value(Y, i - 1), sy, 1e-3, tol), "distance of rows " + S(value(Y, i) - value(Y, i - 1)) + " not " + S(sy));
            const std::string p4 = cs->getProjection()->getProj4String();
            const std::string kind = mp == 1 ? "lcc" : mp == 2 ? "stere" : mp == 3 ? "merc" : "ob_tran";
            CHECK(p4.find("+proj=" + kind) != std::string::npos && p4.find("6370000") != std::string::npos, "projection " + p4);
            if (!(X == "west_east" && own)) {
                std::vector<double> x{(value(X, 0) + value(X, mx - 1)) / 2}, y{(value(Y, 0) + value(Y, my - 1)) / 2};
                cs->getProjection()->convertToLonLat(x, y);
                double dl = std::fabs(x[0] - clon);
                while (dl > 180) dl = std::fabs(dl - 360);
                CHECK(dl * cos(clat * M_PI / 180) < 1e-3 && std::fabs(y[0] - clat) < 1e-3, "the centre is at " + S(x[0]) + " " + S(y[0]) + " in " + p4);
            }
        }
        // times
        CHECK(cdm.hasVariable("Time"), "no times");
        TimeUnit tu(cdm.getUnits("Time"));
        for (int i = 0; i < nt; i++) {
            const double sec = tu.unitTime2epochSeconds(value("Time", i)), expect = 1298786400. + i * 60. * (times ? step : guess ? guess : 180);
            CHECK(std::fabs(sec - expect) < 1, "time " + S(i) + " is " + S(sec) + " not " + S(expect));
        }
        CHECK(cdm.getUnits("forecast_reference_time").substr(0, 22) == "hours since 2011-02-27" && value("forecast_reference_time", 0) == 0, "reference time");
    }
    enhanceVectorProperties(r);
    for (const auto& v : sh) {
        static const std::map<std::string, std::string> O = {{"U", "V"}, {"V", "U"}, {"UAH", "VAH"}, {"VAH", "UAH"}};
        const std::string o = O.count(v.first) && sh.count(O.at(v.first)) ? O.at(v.first) : "";
        const CDMVariable& cv = cdm.getVariable(v.first);
        CHECK(cv.getSpatialVectorCounterpart() == o, "counterpart of " + v.first);
        if (!o.empty()) CHECK(cv.getSpatialVectorDirection() == CDMVariable::vectorDirectionFromString(v.first[0] == 'U' ? "x" : "y"), "direction of " + v.first);
    }
}
// reference time, shapes and size of a dataset
static void utils()
{
    auto r = std::make_shared<MemReader>();
    std::vector<size_t> len;
    for (int i = 0; i < 5; i++) { len.push_back(rnd(1, 3)); r->dim("d" + S(i), len[i]); }
    auto shape = [&] { std::vector<int> q{0, 1, 2, 3, 4}; std::shuffle(q.begin(), q.end(), RNG); q.resize(rnd(0, 4)); return q; };
    std::vector<int> sa = shape(), sb = rnd(0, 1) ? sa : shape();
    if (rnd(0, 1)) for (int i = 0; i < 5; i++) if (len[i] == 1 && !std::count(sb.begin(), sb.end(), i) && rnd(0, 1)) sb.insert(sb.begin() + rnd(0, sb.size()), i);
    static const std::pair<CDMDataType, size_t> T[] = {{CDM_SHORT, 2}, {CDM_INT, 4}, {CDM_FLOAT, 4}, {CDM_DOUBLE, 8}, {CDM_UCHAR, 1}, {CDM_INT64, 8}};
    size_t bytes = 0;
    std::vector<size_t> la, lb;
    auto add = [&](const char* n, const std::vector<int>& q, std::vector<size_t>& l) {
        VS s; size_t c = 1;
        for (int i : q) { s.push_back("d" + S(i)); c *= len[i]; if (len[i] != 1) l.push_back(len[i]); }
        const auto& t = T[rnd(0, 5)];
        r->var(n, t.first, s, std::vector<double>(c));
        bytes += c * t.second;
    };
    add("a", sa, la); add("b", sb, lb);
    // reference times
    const int nr = rnd(0, 3);
    std::vector<long> sec; // since 1970
    for (int i = 0; i < nr; i++) sec.push_back(i && rnd(0, 1) ? sec[0] : 86400L * rnd(0, 20000) + 3600L * rnd(0, 23));
    std::set<long> uniq(sec.begin(), sec.end());
    for (int i = 0; i < nr; i++) {
        const std::string n = "ref" + S(i);
        const bool hours = rnd(0, 1);
        r->var(n, CDM_DOUBLE, {}, {hours ? (sec[i] - 86400) / 3600. : (double)sec[i]});
        r->att(n, "units", ST(hours ? "hours since 1970-01-02 00:00:00" : "seconds since 1970-01-01 00:00:00"));
        r->att(n, "standard_name", ST("forecast_reference_time"));
        bytes += 8;
    }
    const int wrf = rnd(0, 2);
    if (wrf) r->att(CDM::globalAttributeNS(), "SIMULATION_START_DATE", ST(wrf == 1 ? "2011-02-27_06:00:00" : "2011-02-27 06:00:00"));
    if (nr == 0 && wrf) uniq.insert(1298786400);
    ::begin("shapes " + S(sa) + " " + S(sb) + " of " + S(len) + " reference times " + S(sec) + " start " + S(wrf));
    CHECK(compareCDMVarShapes(r->getCDM(), "a", r->getCDM(), "b") == (la == lb) && compareCDMVarShapes(r->getCDM(), "b", r->getCDM(), "a") == (la == lb), "shapes");
    CHECK(estimateCDMDataSize(r->getCDM()) == bytes, "size " + S(estimateCDMDataSize(r->getCDM())) + " not " + S(bytes));
    if (uniq.size() == 1) {
        const FimexTime t = getUniqueForecastReferenceTimeFT(r);
        CHECK(std::fabs(TimeUnit("seconds since 1970-01-01 00:00:00").fimexTime2unitTime(t) - *uniq.begin()) < .5, "reference time");
    } else
        CHECK(throws([&] { getUniqueForecastReferenceTimeFT(r); }), "reference time");
}
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        if (rnd(0, 4) == 0) { switch (rnd(0, 3)) { case 0: coordinates(); break; case 1: vectors(); break; case 2: utils(); break; default: wrf(); } continue; }
        auto r = std::make_shared<MemReader>();
        std::map<std::string, A::AxisType> type;                    // of the axes
        std::map<std::string, SS> bounds;
        std::string desc;
        const int nx = rnd(2, 4), ny = rnd(2, 4);
        auto at = [&](const std::string& v, const char* n, const std::string& s) { r->att(v, n, s); desc += " " + v + ":" + n + "=" + s; };
        if (rnd(0, 2)) at(CDM::globalAttributeNS(), rnd(0, 1) ? "Conventions" : "conventions", one<std::string>({"CF-1.4", "CF-1.0, other", "COARDS"}));
        // horizontal
        const int h = rnd(0, 3);
        const std::string X = one<std::string>({"x", "lon", "i"}), Y = one<std::string>({"y", "lat", "j"});
        r->dim(X, nx); r->dim(Y, ny);
        r->var(X, CDM_DOUBLE, {X}, std::vector<double>(nx)); r->var(Y, CDM_DOUBLE, {Y}, std::vector<double>(ny));
        if (h == 0) {
            type[X] = A::GeoX, type[Y] = A::GeoY;
            at(X, "standard_name", mixed("projection_x_coordinate")); at(Y, "standard_name", mixed("projection_y_coordinate"));
            if (rnd(0, 1)) at(X, "units", "m"), at(Y, "units", "m");
        } else if (h == 1) {
            type[X] = A::GeoX, type[Y] = A::GeoY;
            at(X, "standard_name", "grid_longitude"); at(Y, "standard_name", "grid_latitude");
            at(X, "units", "degrees"); at(Y, "units", "degrees");
        } else if (h == 2) {
            type[X] = A::Lon, type[Y] = A::Lat;
            const int k = rnd(0, 2);
            if (k != 1) at(X, "standard_name", mixed("longitude")), at(Y, "standard_name", mixed("latitude"));
            if (k != 0) at(X, "units", mixed(one<std::string>({"degrees_east", "degree_east", "degrees_E", "degree_E", "degreesE", "degreeE"}))), at(Y, "units", mixed(one<std::string>({"degrees_north", "degree_north", "degrees_N", "degree_N", "degreesN", "degreeN"})));
        } else {
            type[X] = A::GeoX, type[Y] = A::GeoY;
            at(X, "axis", one<std::string>({"X", "x"})); at(Y, "axis", one<std::string>({"Y", "y"}));
        }
        // geographical coordinates
        const bool aux = h != 2 && rnd(0, 1);
        const std::string LO = "longitude_", LA = "latitude_";
        if (aux) {
            r->var(LO, CDM_DOUBLE, {X, Y}, std::vector<double>(nx * ny)); r->var(LA, CDM_DOUBLE, {X, Y}, std::vector<double>(nx * ny));
            if (rnd(0, 1)) at(LO, "standard_name", "longitude"), at(LA, "standard_name", "latitude");
            else at(LO, "units", "degrees_east"), at(LA, "units", "degrees_north");
        }
        // time, reference time, realization, a dimension without variable
        const int tk = rnd(0, 3); // none, by unit, by axis, by reference time and offset
        const std::string T = tk == 3 ? "o" : "t";
        const int nt = rnd(1, 3), nr = rnd(1, 3);
        const bool unl = rnd(0, 1);
        if (tk == 1 || tk == 2) {
            r->dim(T, nt, unl);
            r->var(T, CDM_DOUBLE, {T}, std::vector<double>(nt));
            type[T] = A::Time;
            if (tk == 1) at(T, "units", one<std::string>({"days since 2000-01-01", "hours since 1970-01-01 00:00:00", "seconds since 1970-01-01 00:00:00 +00:00"}));
            else at(T, "axis", one<std::string>({"T", "t"}));
        }
        bool ref = tk == 3 || rnd(0, 3) == 0, refdim = tk == 3 || (ref && rnd(0, 1));
        if (ref) {
            if (refdim) r->dim("r", nr);
            r->var("r", CDM_DOUBLE, refdim ? VS{"r"} : VS{}, std::vector<double>(refdim ? nr : 1));
            at("r", "standard_name", mixed("forecast_reference_time"));
            if (rnd(0, 1)) at("r", "units", "days since 2000-01-01");
            type["r"] = A::ReferenceTime;
        }
        if (tk == 3) {
            r->dim(T, nt, unl);
            type[T] = A::Undefined;
            if (rnd(0, 1)) { r->var(T, CDM_INT, {T}, std::vector<double>(nt)); at(T, "units", "1"); }
            r->var("time", CDM_DOUBLE, {"r", T}, std::vector<double>(nt * nr));
            at("time", "units", "hours since 2000-01-01");
            type["time"] = A::Time;
        }
        const bool ens = rnd(0, 2) == 0, bare = rnd(0, 2) == 0;
        if (ens) { r->dim("e", 3); r->var("e", CDM_INT, {"e"}, {0, 1, 2}); at("e", "standard_name", mixed("realization")); type["e"] = A::Realization; }
        if (bare) { r->dim("n", 2); type["n"] = A::Undefined; }
        if (aux) type[LO] = A::Lon, type[LA] = A::Lat;
        // vertical
        const bool z = rnd(0, 3) != 0;
        std::string vt, Z = "z";
        SS terms, dims; // variables and dimensions used by the formula
        bool later = false;
        if (z) {
            const int k = rnd(0, 17);
            if (k == 16) Z = "altitude";
            r->dim(Z, 3);
            r->var(Z, CDM_DOUBLE, {Z}, {1, 2, 3});
            type[Z] = A::GeoZ;
            auto term = [&](const std::string& n, const VS& s) { size_t c = 1; for (auto& d : s) c *= r->getCDM().getDimension(d).getLength(); r->var(n, CDM_DOUBLE, s, std::vector<double>(c)); terms.insert(n); for (auto& d : s) if (r->getCDM().getDimension(d).getLength() != 1) dims.insert(d); };
            VS sfc{X, Y};
            if (tk == 1 || tk == 2) { if (rnd(0, 1)) sfc.push_back(T); }
            auto up = [&] { if (rnd(0, 1)) at(Z, "positive", one<std::string>({"up", "down"})); };
            switch (k) {
            case 0: at(Z, "units", one<std::string>({"hPa", "Pa", "mbar", "kPa"})); type[Z] = A::Pressure; vt = "pressure"; break;
            case 1: at(Z, "units", one<std::string>({"level", "Layer", "sigma_level"})); break;
            case 2: at(Z, "units", one<std::string>({"m", "km"})); at(Z, "positive", "up"); type[Z] = A::Height; vt = "height"; break;
            case 3: at(Z, "units", one<std::string>({"m", "km"})); at(Z, "positive", "down"); type[Z] = A::Depth; vt = "depth"; break;
            case 4: if (rnd(0, 1)) at(Z, "units", "1"); at(Z, "positive", "up"); break;
            case 5: at(Z, "axis", "Z"); at(Z, "units", "hPa"); type[Z] = A::Pressure; vt = "pressure"; break;
            case 6: at(Z, "axis", one<std::string>({"z", "Z"})); at(Z, "units", "m"); type[Z] = A::Height; vt = "height"; break;
            case 7: at(Z, "axis", "z"); if (rnd(0, 1)) at(Z, "units", "1"); break;
            case 8: at(Z, "standard_name", "atmosphere_sigma_coordinate"); up(); term("ptop", {}); term("ps", sfc); terms.insert(Z); dims.insert(Z); at(Z, "formula_terms", "sigma: z ptop: ptop ps: ps"); vt = "atmosphere_sigma_coordinate"; break;
            case 9: at(Z, "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate"); up(); term("ap", {Z}); term("b", {Z}); term("ps", sfc); at(Z, "formula_terms", "ap: ap b: b ps:ps"); vt = "atmosphere_hybrid_sigma_pressure_coordinate_1"; break;
            case 10: at(Z, "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate"); up(); term("a", {Z}); term("b", {Z}); term("ps", sfc); term("p0", {}); at(Z, "formula_terms", "a: a b: b   ps: ps p0: p0"); vt = "atmosphere_hybrid_sigma_pressure_coordinate_2"; break;
            case 11: at(Z, "standard_name", "atmosphere_ln_pressure_coordinate"); at(Z, "positive", "down"); term("p0", {}); terms.insert(Z); dims.insert(Z); at(Z, "formula_terms", "p0: p0 lev: z"); vt = "atmosphere_ln_pressure_coordinate"; break;
            case 12: case 13: {
                const std::string n = k == 12 ? "ocean_s_coordinate_g1" : "ocean_s_coordinate_g2";
                at(Z, "standard_name", n); up(); term("C", {Z}); term("dep", {X, Y}); term("dc", {}); terms.insert(Z); dims.insert(Z);
                const bool eta = rnd(0, 1);
                if (eta) term("eta", sfc);
                at(Z, "formula_terms", ST("s: z C: C depth: dep depth_c: dc") + (eta ? " eta: eta" : "")); vt = n; break; }
            case 14: at(Z, "standard_name", "atmosphere_hybrid_height_coordinate"); up(); term("a", {Z}); term("b", {Z}); term("orog", {X, Y}); at(Z, "formula_terms", "a: a b: b orog: orog"); vt = "atmosphere_hybrid_height_coordinate"; break;
            case 15: at(Z, "standard_name", one<std::string>({"atmosphere_sleve_coordinate", "ocean_sigma_coordinate", "ocean_s_coordinate", "ocean_sigma_z_coordinate", "ocean_double_sigma_coordinate"})); break;
            case 16: at(Z, "units", "m"); at(Z, "positive", "up"); type[Z] = A::Height; vt = "altitude"; break;
            default: at(Z, "units", "m"); at(Z, "positive", "up"); at(Z, "standard_name", one<std::string>({"altitude", "height_above_mean_sea_level", "height_above_reference_ellipsoid"})); type[Z] = A::Height; vt = "altitude"; break;
            }
            if (k <= 7 || k > 14) dims.clear();
        }
        // bounds
        for (const std::string& a : {X, Y, T}) if (type.count(a) && r->getCDM().hasVariable(a) && rnd(0, 5) == 0) { r->dim(a + "_nv", 2); type[a + "_nv"] = A::Undefined; r->var(a + "_b", CDM_DOUBLE, {a + "_nv", a}, std::vector<double>(2 * r->getCDM().getDimension(a).getLength())); at(a, "bounds", a + "_b"); bounds[a].insert(a + "_b"); }
        // grid mappings
        const char* GM[] = {"polar_stereographic", "mercator", "rotated_latitude_longitude"};
        const int ngm = rnd(0, 2);
        VS gms;
        std::map<std::string, std::string> gmn;
        for (int i = 0; i < ngm; i++) {
            const std::string n = "gm" + S(i);
            const int q = rnd(0, 2);
            r->var(n, CDM_INT, {}, {0});
            r->att(n, "grid_mapping_name", ST(GM[q]));
            r->att(n, "earth_radius", 6371000.);
            if (q == 0) { r->att(n, "straight_vertical_longitude_from_pole", 0.); r->att(n, "latitude_of_projection_origin", 90.); r->att(n, "standard_parallel", 60.); }
            if (q == 1) { r->att(n, "longitude_of_projection_origin", 0.); r->att(n, "standard_parallel", 60.); }
            if (q == 2) { r->att(n, "grid_north_pole_longitude", 0.); r->att(n, "grid_north_pole_latitude", 30.); }
            gms.push_back(n);
            gmn[n] = GM[q];
        }
        // fields
        VS all_;
        for (int i = 0; i < 5; i++) {
            const std::string n = "v" + S(i);
            VS sh, co;
            if (rnd(0, 5)) { sh.push_back(X); sh.push_back(Y); } else if (rnd(0, 1)) sh.push_back(rnd(0, 1) ? X : Y);
            const bool hor = sh.size() == 2;
            if (z && rnd(0, 2)) sh.push_back(Z);
            if (ens && rnd(0, 1)) sh.push_back("e");
            if (bare && rnd(0, 2) == 0) sh.push_back("n");
            if (tk == 3) { if (rnd(0, 3)) { sh.push_back("r"); sh.push_back(T); co.push_back("time"); } }
            else {
                if (refdim && rnd(0, 1)) sh.push_back("r");
                if (ref && !refdim && rnd(0, 1)) co.push_back("r");
                if (tk && rnd(0, 3)) sh.push_back(T);
            }
            if (aux && hor && rnd(0, 3)) { co.push_back(LO); co.push_back(LA); }
            if (!co.empty() && !sh.empty() && rnd(0, 5) == 0) co.push_back(sh[0]); // an explicit axis named again
            std::shuffle(co.begin(), co.end(), RNG);
            r->getInternalCDM().addVariable(CDMVariable(n, CDM_FLOAT, sh));
            desc += " " + n + S(sh);
            if (!co.empty()) { std::string s; for (auto& c : co) s += (s.empty() ? "" : " ") + c; at(n, "coordinates", s); }
            if (rnd(0, 1)) at(n, "grid_mapping", gms.empty() || rnd(0, 5) == 0 ? ST("nope") : gms[rnd(0, (int)gms.size() - 1)]);
        }
        ::begin(desc);
        auto verify = [&](const CDM& cdm, const CoordinateSystem_cp_v& list, const std::string& how) {
            SS named; // axes
            for (const auto& d : cdm.getDimensions()) named.insert(d.getName());
            auto coords = [&](const std::string& v) { SS s; CDMAttribute a; if (cdm.getAttribute(v, "coordinates", a)) { std::istringstream i(a.getStringValue()); for (std::string q; i >> q;) s.insert(q); } return s; };
            for (const auto& v : cdm.getVariables()) for (const auto& c : coords(v.getName())) named.insert(c);
            auto axes = [&](const std::string& v) { SS s = coords(v); for (const auto& d : cdm.getVariable(v).getShape()) s.insert(d); return s; };
            std::set<SS> want, got;
            for (const auto& v : cdm.getVariables()) if (!named.count(v.getName()) && !axes(v.getName()).empty()) want.insert(axes(v.getName()));
            for (const auto& cs : list) {
                SS s;
                for (const auto& a : cs->getAxes()) s.insert(a->getName());
                CHECK(s.size() == cs->getAxes().size() && got.insert(s).second, how + ": coordinate system " + S(*cs) + " twice");
                CHECK(want.count(s), how + ": coordinate system " + S(*cs) + " of no variable");
                const std::string W = how + " of " + S(VS(s.begin(), s.end())) + ": ";
                for (const auto& v : cdm.getVariables()) {
                    const SS q = axes(v.getName());
                    const bool com = std::includes(q.begin(), q.end(), s.begin(), s.end()), is = std::includes(s.begin(), s.end(), q.begin(), q.end());
                    CHECK(cs->isComplete(v.getName()) == com && cs->isCSFor(v.getName()) == is && cs->isCSAndCompleteFor(v.getName()) == (com && is), W + "relation to " + v.getName());
                    if (com && is && !named.count(v.getName())) CHECK(findCompleteCoordinateSystemFor(list, v.getName()) == cs, W + "not found for " + v.getName());
                }
                auto of = [&](std::initializer_list<A::AxisType> ts) { for (auto t : ts) for (const auto& a : s) if (type.at(a) == t) return a; return std::string(); };
                auto nm = [](CoordinateAxis_cp a) { return a ? a->getName() : std::string(); };
                for (const auto& a : cs->getAxes()) {
                    CHECK(a->getAxisType() == type.at(a->getName()), W + "type of " + a->getName() + " is " + CoordinateAxis::type2string(a->getAxisType()) + " not " + CoordinateAxis::type2string(type.at(a->getName())));
                    CHECK(a->isExplicit() == cdm.hasDimension(a->getName()), W + "explicit axis " + a->getName());
                    if (a->getAxisType() != A::Undefined) CHECK(cs->hasAxisType(a->getAxisType()) && nm(cs->findAxisOfType(a->getAxisType())) == a->getName(), W + "axis by type");
                }
                const std::string gx = of({A::GeoX, A::Lon}), gy = of({A::GeoY, A::Lat}), gz = of({A::GeoZ, A::Height, A::Depth, A::Pressure}), gt = of({A::Time});
                CHECK(nm(cs->getGeoXAxis()) == gx && nm(cs->getGeoYAxis()) == gy, W + "horizontal axes");
                CHECK(nm(cs->getGeoZAxis()) == gz && nm(cs->getTimeAxis()) == gt, W + "vertical and time axes");
                const bool simple = !gx.empty() && !gy.empty() && cdm.hasDimension(gx) && cdm.hasDimension(gy);
                CHECK(cs->isSimpleSpatialGridded() == simple, W + "gridded");
                // the projection of the first variable having one
                std::string proj, pv;
                for (const auto& v : cdm.getVariables()) {
                    if (!proj.empty() || !cs->isCSAndCompleteFor(v.getName())) continue;
                    CDMAttribute a;
                    if (cdm.getAttribute(v.getName(), "grid_mapping", a)) { if (cdm.hasVariable(a.getStringValue())) pv = a.getStringValue(), proj = gmn.at(pv); }
                    else if (simple && type.at(gx) == A::Lon && type.at(gy) == A::Lat) proj = "latitude_longitude";
                }
                CHECK(cs->hasProjection() == !proj.empty(), W + "projection " + proj);
                if (!proj.empty()) CHECK(cs->getProjection()->getName() == proj, W + "projection is " + cs->getProjection()->getName() + " not " + proj);
                // vertical transformation, if the system has the axes of the formula
                const bool have = !gz.empty() && std::includes(s.begin(), s.end(), dims.begin(), dims.end());
                const std::string v = have ? vt : "";
                CHECK(cs->hasVerticalTransformation() == !v.empty(), W + "vertical transformation " + v);
                if (!v.empty()) CHECK(cs->getVerticalTransformation()->getName() == v || (v == "altitude" && cs->getVerticalTransformation()->getName() == "height"), W + "vertical transformation is " + cs->getVerticalTransformation()->getName() + " not " + v);
                // what it needs
                SS dep = s;
                if (!pv.empty()) dep.insert(pv);
                if (!gz.empty()) dep.insert(terms.begin(), terms.end());
                for (const auto& a : s) if (bounds.count(a)) dep.insert(bounds[a].begin(), bounds[a].end());
                CHECK(cs->getDependencyVariables() == dep, W + "dependencies");
                // slices
                if (std::none_of(cdm.getVariables().begin(), cdm.getVariables().end(), [&](const CDMVariable& q) { return cs->isCSAndCompleteFor(q.getName()) && !named.count(q.getName()); })) continue;
                CoordinateSystemSliceBuilder sb(cdm, cs);
                VS dn = sb.getDimensionNames();
                std::map<std::string, std::pair<size_t, size_t>> part;
                for (const auto& d : dn) part[d] = {0, cdm.getDimension(d).getLength()};
                SS unset(dn.begin(), dn.end());
                if (refdim && part.count("r")) part["r"].second = 1, unset.erase("r");
                const auto types = sb.getAxisTypes();
                CHECK(types.size() == dn.size(), W + "axis types");
                for (size_t i = 0; i < dn.size(); i++) CHECK(types[i] == type.at(dn[i]), W + "axis type of " + dn[i]);
                auto pick = [&](const std::string& d, size_t& b, size_t& n) { const size_t L = cdm.getDimension(d).getLength(); b = rnd(0, (int)L - 1); n = rnd(1, (int)(L - b)); };
                size_t b = 0, n = 1;
                if (!gt.empty() && rnd(0, 1)) { const std::string d = tk == 3 ? T : gt; pick(d, b, n); sb.setTimeStartAndSize(b, n); part[d] = {b, n}; unset.erase(d); }
                else if (gt.empty()) sb.setTimeStartAndSize(7, 9);
                if (rnd(0, 1)) { size_t p = rnd(0, nr - 1); sb.setReferenceTimePos(p); if (refdim && part.count("r")) part["r"] = {p, 1}; }
                for (auto t : {A::GeoX, A::GeoY, A::Lon, A::Lat, A::Realization, A::Pressure, A::Height, A::GeoZ}) {
                    if (rnd(0, 1)) continue;
                    const std::string d = of({t});
                    if (d.empty() || !cdm.hasDimension(d)) { sb.setAxisStartAndSize(t, 5, 6); continue; }
                    pick(d, b, n);
                    sb.setAxisStartAndSize(t, b, n);
                    part[d] = {b, n};
                    unset.erase(d);
                }
                for (size_t i = 0; i < dn.size(); i++) CHECK(sb.getDimensionStartPositions()[i] == part[dn[i]].first && sb.getDimensionSizes()[i] == part[dn[i]].second, W + "slice along " + dn[i]);
                const VS un = sb.getUnsetDimensionNames();
                CHECK(SS(un.begin(), un.end()) == unset, W + "dimensions left " + S(un));
                if (!gt.empty()) {
                    SliceBuilder tb = sb.getTimeVariableSliceBuilder();
                    CHECK(tb.getDimensionNames() == cdm.getVariable(gt).getShape(), W + "time slice");
                    for (size_t i = 0; i < tb.getDimensionNames().size(); i++) CHECK(tb.getDimensionStartPositions()[i] == part[tb.getDimensionNames()[i]].first && tb.getDimensionSizes()[i] == part[tb.getDimensionNames()[i]].second, W + "time slice");
                }
            }
            CHECK(got == want, how + ": " + S(list.size()) + " coordinate systems, not " + S(want.size()));
            // axes of each variable by the data model
            const CDM raw(cdm);
            for (const auto& v : cdm.getVariables()) {
                const std::string n = v.getName();
                if (named.count(n)) continue;
                const SS s = axes(n);
                auto of = [&](std::initializer_list<A::AxisType> ts) { if (!s.empty()) for (auto t : ts) for (const auto& a : s) if (type.at(a) == t) return a; return std::string(); };
                // each question may be the first one asked
                CDM own;
                auto ask = [&]() -> const CDM& { if (rnd(0, 100)) return cdm; own = raw; return own; };
                CHECK(ask().getHorizontalXAxis(n) == of({A::GeoX, A::Lon}), how + ": x axis of " + n + " is " + cdm.getHorizontalXAxis(n));
                CHECK(ask().getHorizontalYAxis(n) == of({A::GeoY, A::Lat}), how + ": y axis of " + n);
                CHECK(ask().getVerticalAxis(n) == of({A::GeoZ, A::Height, A::Depth, A::Pressure}), how + ": vertical axis of " + n);
                CHECK(ask().getTimeAxis(n) == of({A::Time}), how + ": time axis of " + n);
                std::string la, lo;
                const bool ll = !of({A::Lat}).empty() && !of({A::Lon}).empty();
                CHECK(ask().getLatitudeLongitude(n, la, lo) == ll && (!ll || (la == of({A::Lat}) && lo == of({A::Lon}))), how + ": latitude and longitude of " + n);
                const CoordinateSystem_cp c = findCompleteCoordinateSystemFor(list, n);
                const Projection_cp p = ask().getProjectionOf(n);
                CHECK(!p == !(c && c->hasProjection()) && (!p || p->getName() == c->getProjection()->getName()), how + ": projection of " + n);
            }
        };
        verify(r->getCDM(), listCoordinateSystems(r), "listed");
        verify(r->getCDM(), listCoordinateSystems(r->getCDM()), "listed from the model");
        // horizontal systems
        for (bool wp : {true, false}) {
            std::map<std::string, CoordinateSystem_cp> sys, expect;
            std::map<std::string, std::string> vars, ev;
            VS inc;
            const auto list = listCoordinateSystems(r);
            for (const auto& cs : list) if (wp ? cs->isSimpleSpatialGridded() && cs->hasProjection() : cs->hasAxisType(A::Lat) && cs->hasAxisType(A::Lon)) expect[cs->getGeoXAxis()->getName() + "," + cs->getGeoYAxis()->getName()] = cs;
            for (const auto& v : r->getCDM().getVariables()) if (auto cs = findCompleteCoordinateSystemFor(list, v.getName())) if (cs->getGeoXAxis() && cs->getGeoYAxis()) { const std::string id = cs->getGeoXAxis()->getName() + "," + cs->getGeoYAxis()->getName(); if (expect.count(id)) ev[v.getName()] = id; }
            const int n = findBestHorizontalCoordinateSystems(wp, r, sys, vars, inc);
            CHECK(n == (int)expect.size() && sys.size() == expect.size(), "horizontal coordinate systems");
            if (expect.empty()) continue;
            CHECK(vars == ev, "variables of the horizontal coordinate systems");
            for (const auto& e : expect) {
                CHECK(sys.count(e.first), "horizontal coordinate system " + e.first);
                const auto& cs = sys[e.first];
                CHECK(cs->getGeoXAxis()->getName() == e.second->getGeoXAxis()->getName() && cs->getGeoYAxis()->getName() == e.second->getGeoYAxis()->getName() && cs->hasProjection() == e.second->hasProjection(), "axes of " + e.first);
                CHECK(cs->hasAxisType(A::Lon) == e.second->hasAxisType(A::Lon) && cs->hasAxisType(A::Lat) == e.second->hasAxisType(A::Lat), "geographical axes of " + e.first);
                for (const auto& v : ev) CHECK(cs->isCSFor(v.first) == (v.second == e.first), "variable " + v.first + " of " + e.first);
                for (const auto& v : r->getCDM().getVariables()) {
                    bool geo = false, axis = false;
                    for (const auto& d : v.getShape()) for (const auto& a : {e.second->getGeoXAxis(), e.second->getGeoYAxis()}) geo |= std::count(a->getShape().begin(), a->getShape().end(), d) > 0;
                    for (const auto& a : e.second->getAxes()) axis |= a->getName() == v.getName();
                    if (expect.size() == 1) CHECK((std::count(inc.begin(), inc.end(), v.getName()) > 0) == (geo && !axis && !ev.count(v.getName())), "incompatible variable " + v.getName());
                }
            }
        }
        // after changes of the model
        CDM& cdm = r->getInternalCDM();
        for (int i = 0; i < 3; i++) {
            const std::string v = "v" + S(rnd(0, 4)), old = v;
            switch (rnd(0, 4)) {
            case 0: if (cdm.hasVariable(v)) { cdm.removeVariable(v); CASE += " removed " + v; } break;
            case 1: if (cdm.hasVariable(v) && cdm.checkVariableAttribute(v, "coordinates", std::regex(".*"))) { cdm.removeAttribute(v, "coordinates"); CASE += " without coordinates " + v; } break;
            case 2: if (!cdm.hasVariable(v)) { cdm.addVariable(CDMVariable(v, CDM_FLOAT, {Y, X})); CASE += " added " + v; } break;
            case 3: if (cdm.hasVariable(v) && aux && std::count(cdm.getVariable(v).getShape().begin(), cdm.getVariable(v).getShape().end(), X)) { cdm.addOrReplaceAttribute(v, CDMAttribute("coordinates", LA + " " + LO)); CASE += " with coordinates " + v; } break;
            default: if (cdm.hasVariable(v) && !gms.empty() && !cdm.checkVariableAttribute(v, "grid_mapping", std::regex(".*"))) { cdm.addAttribute(v, CDMAttribute("grid_mapping", gms[0])); CASE += " grid mapping " + v; } break;
            }
            verify(cdm, listCoordinateSystems(r), "after change " + S(i));
        }
    }
    return done();
}
