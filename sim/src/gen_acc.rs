// FROZEN output of tools/extract_spec.py: every public accessor of every received message.
// Values go through `ToVal`, so a change of an accessor's type is a disagreement, not a build failure.
use crate::val::{list, ToVal, Val};
use ublox::*;

pub fn acc_NavPosLlh(p: &NavPosLlhRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("lon_degrees", p.lon_degrees().to_val()),
        ("lon_degrees_raw", p.lon_degrees_raw().to_val()),
        ("lat_degrees", p.lat_degrees().to_val()),
        ("lat_degrees_raw", p.lat_degrees_raw().to_val()),
        ("height_meters", p.height_meters().to_val()),
        ("height_meters_raw", p.height_meters_raw().to_val()),
        ("height_msl", p.height_msl().to_val()),
        ("height_msl_raw", p.height_msl_raw().to_val()),
        ("h_ack", p.h_ack().to_val()),
        ("h_ack_raw", p.h_ack_raw().to_val()),
        ("v_acc", p.v_acc().to_val()),
        ("v_acc_raw", p.v_acc_raw().to_val()),
    ]
}

pub fn acc_NavStatus(p: &NavStatusRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("fix_type", Val::Name(format!("{:?}", p.fix_type()))),
        ("fix_type_raw", p.fix_type_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(NavStatusFlags::GPS_FIX_OK), p.flags().contains(NavStatusFlags::DIFF_SOLN), p.flags().contains(NavStatusFlags::WKN_SET), p.flags().contains(NavStatusFlags::TOW_SET)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("fix_stat", p.fix_stat().to_val()),
        ("fix_stat_raw", p.fix_stat_raw().to_val()),
        ("flags2", Val::Name(format!("{:?}", p.flags2()))),
        ("flags2_raw", p.flags2_raw().to_val()),
        ("time_to_first_fix", p.time_to_first_fix().to_val()),
        ("uptime_ms", p.uptime_ms().to_val()),
    ]
}

pub fn acc_NavDop(p: &NavDopRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("geometric_dop", p.geometric_dop().to_val()),
        ("geometric_dop_raw", p.geometric_dop_raw().to_val()),
        ("position_dop", p.position_dop().to_val()),
        ("position_dop_raw", p.position_dop_raw().to_val()),
        ("time_dop", p.time_dop().to_val()),
        ("time_dop_raw", p.time_dop_raw().to_val()),
        ("vertical_dop", p.vertical_dop().to_val()),
        ("vertical_dop_raw", p.vertical_dop_raw().to_val()),
        ("horizontal_dop", p.horizontal_dop().to_val()),
        ("horizontal_dop_raw", p.horizontal_dop_raw().to_val()),
        ("northing_dop", p.northing_dop().to_val()),
        ("northing_dop_raw", p.northing_dop_raw().to_val()),
        ("easting_dop", p.easting_dop().to_val()),
        ("easting_dop_raw", p.easting_dop_raw().to_val()),
    ]
}

pub fn acc_NavPvt(p: &NavPvtRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("year", p.year().to_val()),
        ("month", p.month().to_val()),
        ("day", p.day().to_val()),
        ("hour", p.hour().to_val()),
        ("min", p.min().to_val()),
        ("sec", p.sec().to_val()),
        ("valid", p.valid().to_val()),
        ("time_accuracy", p.time_accuracy().to_val()),
        ("nanosecond", p.nanosecond().to_val()),
        ("fix_type", Val::Name(format!("{:?}", p.fix_type()))),
        ("fix_type_raw", p.fix_type_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(NavPvtFlags::GPS_FIX_OK), p.flags().contains(NavPvtFlags::DIFF_SOLN), p.flags().contains(NavPvtFlags::HEAD_VEH_VALID), p.flags().contains(NavPvtFlags::CARR_SOLN_FLOAT), p.flags().contains(NavPvtFlags::CARR_SOLN_FIXED)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("flags2", (p.flags2().bits()).to_val()),
        ("flags2#flags", Val::FlagSet(vec![p.flags2().contains(NavPvtFlags2::CONFIRMED_AVAI), p.flags2().contains(NavPvtFlags2::CONFIRMED_DATE), p.flags2().contains(NavPvtFlags2::CONFIRMED_TIME)])),
        ("flags2_raw", p.flags2_raw().to_val()),
        ("num_satellites", p.num_satellites().to_val()),
        ("lon_degrees", p.lon_degrees().to_val()),
        ("lon_degrees_raw", p.lon_degrees_raw().to_val()),
        ("lat_degrees", p.lat_degrees().to_val()),
        ("lat_degrees_raw", p.lat_degrees_raw().to_val()),
        ("height_meters", p.height_meters().to_val()),
        ("height_meters_raw", p.height_meters_raw().to_val()),
        ("height_msl", p.height_msl().to_val()),
        ("height_msl_raw", p.height_msl_raw().to_val()),
        ("horiz_accuracy", p.horiz_accuracy().to_val()),
        ("vert_accuracy", p.vert_accuracy().to_val()),
        ("vel_north", p.vel_north().to_val()),
        ("vel_north_raw", p.vel_north_raw().to_val()),
        ("vel_east", p.vel_east().to_val()),
        ("vel_east_raw", p.vel_east_raw().to_val()),
        ("vel_down", p.vel_down().to_val()),
        ("vel_down_raw", p.vel_down_raw().to_val()),
        ("ground_speed", p.ground_speed().to_val()),
        ("ground_speed_raw", p.ground_speed_raw().to_val()),
        ("heading_degrees", p.heading_degrees().to_val()),
        ("heading_degrees_raw", p.heading_degrees_raw().to_val()),
        ("speed_accuracy_estimate", p.speed_accuracy_estimate().to_val()),
        ("speed_accuracy_estimate_raw", p.speed_accuracy_estimate_raw().to_val()),
        ("heading_accuracy_estimate", p.heading_accuracy_estimate().to_val()),
        ("heading_accuracy_estimate_raw", p.heading_accuracy_estimate_raw().to_val()),
        ("pdop", p.pdop().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("heading_of_vehicle_degrees", p.heading_of_vehicle_degrees().to_val()),
        ("heading_of_vehicle_degrees_raw", p.heading_of_vehicle_degrees_raw().to_val()),
        ("magnetic_declination_degrees", p.magnetic_declination_degrees().to_val()),
        ("magnetic_declination_degrees_raw", p.magnetic_declination_degrees_raw().to_val()),
        ("magnetic_declination_accuracy_degrees", p.magnetic_declination_accuracy_degrees().to_val()),
        ("magnetic_declination_accuracy_degrees_raw", p.magnetic_declination_accuracy_degrees_raw().to_val()),
    ]
}

pub fn acc_NavSolution(p: &NavSolutionRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("ftow_ns", p.ftow_ns().to_val()),
        ("week", p.week().to_val()),
        ("fix_type", Val::Name(format!("{:?}", p.fix_type()))),
        ("fix_type_raw", p.fix_type_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(NavStatusFlags::GPS_FIX_OK), p.flags().contains(NavStatusFlags::DIFF_SOLN), p.flags().contains(NavStatusFlags::WKN_SET), p.flags().contains(NavStatusFlags::TOW_SET)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("ecef_x", p.ecef_x().to_val()),
        ("ecef_x_raw", p.ecef_x_raw().to_val()),
        ("ecef_y", p.ecef_y().to_val()),
        ("ecef_y_raw", p.ecef_y_raw().to_val()),
        ("ecef_z", p.ecef_z().to_val()),
        ("ecef_z_raw", p.ecef_z_raw().to_val()),
        ("position_accuracy_estimate", p.position_accuracy_estimate().to_val()),
        ("position_accuracy_estimate_raw", p.position_accuracy_estimate_raw().to_val()),
        ("ecef_vx", p.ecef_vx().to_val()),
        ("ecef_vx_raw", p.ecef_vx_raw().to_val()),
        ("ecef_vy", p.ecef_vy().to_val()),
        ("ecef_vy_raw", p.ecef_vy_raw().to_val()),
        ("ecef_vz", p.ecef_vz().to_val()),
        ("ecef_vz_raw", p.ecef_vz_raw().to_val()),
        ("speed_accuracy_estimate", p.speed_accuracy_estimate().to_val()),
        ("speed_accuracy_estimate_raw", p.speed_accuracy_estimate_raw().to_val()),
        ("pdop", p.pdop().to_val()),
        ("pdop_raw", p.pdop_raw().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("num_sv", p.num_sv().to_val()),
        ("reserved2", p.reserved2().to_val()),
    ]
}

pub fn acc_NavVelNed(p: &NavVelNedRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("vel_north", p.vel_north().to_val()),
        ("vel_north_raw", p.vel_north_raw().to_val()),
        ("vel_east", p.vel_east().to_val()),
        ("vel_east_raw", p.vel_east_raw().to_val()),
        ("vel_down", p.vel_down().to_val()),
        ("vel_down_raw", p.vel_down_raw().to_val()),
        ("speed_3d", p.speed_3d().to_val()),
        ("speed_3d_raw", p.speed_3d_raw().to_val()),
        ("ground_speed", p.ground_speed().to_val()),
        ("ground_speed_raw", p.ground_speed_raw().to_val()),
        ("heading_degrees", p.heading_degrees().to_val()),
        ("heading_degrees_raw", p.heading_degrees_raw().to_val()),
        ("speed_accuracy_estimate", p.speed_accuracy_estimate().to_val()),
        ("speed_accuracy_estimate_raw", p.speed_accuracy_estimate_raw().to_val()),
        ("course_heading_accuracy_estimate", p.course_heading_accuracy_estimate().to_val()),
        ("course_heading_accuracy_estimate_raw", p.course_heading_accuracy_estimate_raw().to_val()),
    ]
}

pub fn acc_NavHpPosLlh(p: &NavHpPosLlhRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("itow", p.itow().to_val()),
        ("lon_degrees", p.lon_degrees().to_val()),
        ("lon_degrees_raw", p.lon_degrees_raw().to_val()),
        ("lat_degrees", p.lat_degrees().to_val()),
        ("lat_degrees_raw", p.lat_degrees_raw().to_val()),
        ("height_meters", p.height_meters().to_val()),
        ("height_meters_raw", p.height_meters_raw().to_val()),
        ("height_msl", p.height_msl().to_val()),
        ("height_msl_raw", p.height_msl_raw().to_val()),
        ("lon_hp_degrees", p.lon_hp_degrees().to_val()),
        ("lon_hp_degrees_raw", p.lon_hp_degrees_raw().to_val()),
        ("lat_hp_degrees", p.lat_hp_degrees().to_val()),
        ("lat_hp_degrees_raw", p.lat_hp_degrees_raw().to_val()),
        ("height_hp_meters", p.height_hp_meters().to_val()),
        ("height_hp_meters_raw", p.height_hp_meters_raw().to_val()),
        ("height_hp_msl", p.height_hp_msl().to_val()),
        ("height_hp_msl_raw", p.height_hp_msl_raw().to_val()),
        ("horizontal_accuracy", p.horizontal_accuracy().to_val()),
        ("horizontal_accuracy_raw", p.horizontal_accuracy_raw().to_val()),
        ("vertical_accuracy", p.vertical_accuracy().to_val()),
        ("vertical_accuracy_raw", p.vertical_accuracy_raw().to_val()),
    ]
}

pub fn acc_NavHpPosEcef(p: &NavHpPosEcefRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("itow", p.itow().to_val()),
        ("ecef_x_cm", p.ecef_x_cm().to_val()),
        ("ecef_x_cm_raw", p.ecef_x_cm_raw().to_val()),
        ("ecef_y_cm", p.ecef_y_cm().to_val()),
        ("ecef_y_cm_raw", p.ecef_y_cm_raw().to_val()),
        ("ecef_z_cm", p.ecef_z_cm().to_val()),
        ("ecef_z_cm_raw", p.ecef_z_cm_raw().to_val()),
        ("ecef_x_hp_mm", p.ecef_x_hp_mm().to_val()),
        ("ecef_x_hp_mm_raw", p.ecef_x_hp_mm_raw().to_val()),
        ("ecef_y_hp_mm", p.ecef_y_hp_mm().to_val()),
        ("ecef_y_hp_mm_raw", p.ecef_y_hp_mm_raw().to_val()),
        ("ecef_z_hp_mm", p.ecef_z_hp_mm().to_val()),
        ("ecef_z_hp_mm_raw", p.ecef_z_hp_mm_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(NavHpPosEcefFlags::INVALID_ECEF)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("p_acc", p.p_acc().to_val()),
        ("p_acc_raw", p.p_acc_raw().to_val()),
    ]
}

pub fn acc_NavTimeUTC(p: &NavTimeUTCRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("time_accuracy_estimate_ns", p.time_accuracy_estimate_ns().to_val()),
        ("nanos", p.nanos().to_val()),
        ("year", p.year().to_val()),
        ("month", p.month().to_val()),
        ("day", p.day().to_val()),
        ("hour", p.hour().to_val()),
        ("min", p.min().to_val()),
        ("sec", p.sec().to_val()),
        ("valid", (p.valid().bits()).to_val()),
        ("valid#flags", Val::FlagSet(vec![p.valid().contains(NavTimeUtcFlags::VALID_TOW), p.valid().contains(NavTimeUtcFlags::VALID_WKN), p.valid().contains(NavTimeUtcFlags::VALID_UTC)])),
        ("valid_raw", p.valid_raw().to_val()),
    ]
}

pub fn acc_NavTimeLs(p: &NavTimeLsRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("version", p.version().to_val()),
        ("reserved_1", p.reserved_1().to_val()),
        ("src_of_curr_ls", p.src_of_curr_ls().to_val()),
        ("current_ls", p.current_ls().to_val()),
        ("src_of_ls_change", p.src_of_ls_change().to_val()),
        ("ls_change", p.ls_change().to_val()),
        ("time_to_ls_event", p.time_to_ls_event().to_val()),
        ("date_of_ls_gps_wn", p.date_of_ls_gps_wn().to_val()),
        ("date_of_ls_gps_dn", p.date_of_ls_gps_dn().to_val()),
        ("reserved_2", p.reserved_2().to_val()),
        ("valid", (p.valid().bits()).to_val()),
        ("valid#flags", Val::FlagSet(vec![p.valid().contains(NavTimeLsFlags::VALID_CURR_LS), p.valid().contains(NavTimeLsFlags::VALID_TIME_TO_LS_EVENT)])),
        ("valid_raw", p.valid_raw().to_val()),
    ]
}

pub fn acc_NavSat(p: &NavSatRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("version", p.version().to_val()),
        ("num_svs", p.num_svs().to_val()),
        ("reserved", p.reserved().to_val()),
        ("svs", list(|| p.svs(), |x| Val::Map(acc_NavSatSvInfo(&x)))),
    ]
}

pub fn acc_NavEoe(p: &NavEoeRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
    ]
}

pub fn acc_NavOdo(p: &NavOdoRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("reserved", p.reserved().to_val()),
        ("itow", p.itow().to_val()),
        ("distance", p.distance().to_val()),
        ("total_distance", p.total_distance().to_val()),
        ("distance_std", p.distance_std().to_val()),
    ]
}

pub fn acc_CfgOdo(p: &CfgOdoRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("reserved", p.reserved().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(OdoCogFilterFlags::USE_ODO), p.flags().contains(OdoCogFilterFlags::USE_COG), p.flags().contains(OdoCogFilterFlags::OUT_LP_VEL), p.flags().contains(OdoCogFilterFlags::OUT_LP_COG)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("odo_cfg", Val::Name(format!("{:?}", p.odo_cfg()))),
        ("odo_cfg_raw", p.odo_cfg_raw().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("cog_max_speed", p.cog_max_speed().to_val()),
        ("cog_max_pos_acc", p.cog_max_pos_acc().to_val()),
        ("reserved3", p.reserved3().to_val()),
        ("vel_lp_gain", p.vel_lp_gain().to_val()),
        ("cog_lp_gain", p.cog_lp_gain().to_val()),
        ("reserved4", p.reserved4().to_val()),
    ]
}

pub fn acc_MgaAck(p: &MgaAckRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("ack_type", p.ack_type().to_val()),
        ("version", p.version().to_val()),
        ("info_code", Val::Name(format!("{:?}", p.info_code()))),
        ("info_code_raw", p.info_code_raw().to_val()),
        ("msg_id", p.msg_id().to_val()),
        ("msg_payload_start", p.msg_payload_start().to_val()),
    ]
}

pub fn acc_MgaGpsIono(p: &MgaGpsIonoRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("msg_type", p.msg_type().to_val()),
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("alpha0", p.alpha0().to_val()),
        ("alpha0_raw", p.alpha0_raw().to_val()),
        ("alpha1", p.alpha1().to_val()),
        ("alpha1_raw", p.alpha1_raw().to_val()),
        ("alpha2", p.alpha2().to_val()),
        ("alpha2_raw", p.alpha2_raw().to_val()),
        ("alpha3", p.alpha3().to_val()),
        ("alpha3_raw", p.alpha3_raw().to_val()),
        ("beta0", p.beta0().to_val()),
        ("beta0_raw", p.beta0_raw().to_val()),
        ("beta1", p.beta1().to_val()),
        ("beta1_raw", p.beta1_raw().to_val()),
        ("beta2", p.beta2().to_val()),
        ("beta2_raw", p.beta2_raw().to_val()),
        ("beta3", p.beta3().to_val()),
        ("beta3_raw", p.beta3_raw().to_val()),
        ("reserved2", p.reserved2().to_val()),
    ]
}

pub fn acc_MgaGpsEph(p: &MgaGpsEphRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("msg_type", p.msg_type().to_val()),
        ("version", p.version().to_val()),
        ("sv_id", p.sv_id().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("fit_interval", p.fit_interval().to_val()),
        ("ura_index", p.ura_index().to_val()),
        ("sv_health", p.sv_health().to_val()),
        ("tgd", p.tgd().to_val()),
        ("iodc", p.iodc().to_val()),
        ("toc", p.toc().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("af2", p.af2().to_val()),
        ("af1", p.af1().to_val()),
        ("af0", p.af0().to_val()),
        ("crs", p.crs().to_val()),
        ("delta_n", p.delta_n().to_val()),
        ("m0", p.m0().to_val()),
        ("cuc", p.cuc().to_val()),
        ("cus", p.cus().to_val()),
        ("e", p.e().to_val()),
        ("sqrt_a", p.sqrt_a().to_val()),
        ("toe", p.toe().to_val()),
        ("cic", p.cic().to_val()),
        ("omega0", p.omega0().to_val()),
        ("cis", p.cis().to_val()),
        ("crc", p.crc().to_val()),
        ("i0", p.i0().to_val()),
        ("omega", p.omega().to_val()),
        ("omega_dot", p.omega_dot().to_val()),
        ("idot", p.idot().to_val()),
        ("reserved3", p.reserved3().to_val()),
    ]
}

pub fn acc_MgaGloEph(p: &MgaGloEphRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("msg_type", p.msg_type().to_val()),
        ("version", p.version().to_val()),
        ("sv_id", p.sv_id().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("ft", p.ft().to_val()),
        ("b", p.b().to_val()),
        ("m", p.m().to_val()),
        ("h", p.h().to_val()),
        ("x", p.x().to_val()),
        ("y", p.y().to_val()),
        ("z", p.z().to_val()),
        ("dx", p.dx().to_val()),
        ("dy", p.dy().to_val()),
        ("dz", p.dz().to_val()),
        ("ddx", p.ddx().to_val()),
        ("ddy", p.ddy().to_val()),
        ("ddz", p.ddz().to_val()),
        ("tb", p.tb().to_val()),
        ("gamma", p.gamma().to_val()),
        ("e", p.e().to_val()),
        ("delta_tau", p.delta_tau().to_val()),
        ("tau", p.tau().to_val()),
        ("reserved2", p.reserved2().to_val()),
    ]
}

pub fn acc_AlpSrv(p: &AlpSrvRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("id_size", p.id_size().to_val()),
        ("data_type", p.data_type().to_val()),
        ("offset", p.offset().to_val()),
        ("size", p.size().to_val()),
        ("file_id", p.file_id().to_val()),
        ("data_size", p.data_size().to_val()),
        ("id1", p.id1().to_val()),
        ("id2", p.id2().to_val()),
        ("id3", p.id3().to_val()),
    ]
}

pub fn acc_AckAck(p: &AckAckRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("class", p.class().to_val()),
        ("msg_id", p.msg_id().to_val()),
    ]
}

pub fn acc_AckNak(p: &AckNakRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("class", p.class().to_val()),
        ("msg_id", p.msg_id().to_val()),
    ]
}

pub fn acc_CfgItfm(p: &CfgItfmRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("config", p.config().to_val()),
        ("config_raw", p.config_raw().to_val()),
        ("config2", p.config2().to_val()),
        ("config2_raw", p.config2_raw().to_val()),
    ]
}

pub fn acc_CfgPrtI2c(p: &CfgPrtI2cRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("portid", Val::Name(format!("{:?}", p.portid()))),
        ("portid_raw", p.portid_raw().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("tx_ready", p.tx_ready().to_val()),
        ("mode", p.mode().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("in_proto_mask", (p.in_proto_mask().bits()).to_val()),
        ("in_proto_mask#flags", Val::FlagSet(vec![p.in_proto_mask().contains(InProtoMask::UBLOX), p.in_proto_mask().contains(InProtoMask::NMEA), p.in_proto_mask().contains(InProtoMask::RTCM), p.in_proto_mask().contains(InProtoMask::RTCM3)])),
        ("in_proto_mask_raw", p.in_proto_mask_raw().to_val()),
        ("out_proto_mask", (p.out_proto_mask().bits()).to_val()),
        ("out_proto_mask#flags", Val::FlagSet(vec![p.out_proto_mask().contains(OutProtoMask::UBLOX), p.out_proto_mask().contains(OutProtoMask::NMEA), p.out_proto_mask().contains(OutProtoMask::RTCM3)])),
        ("out_proto_mask_raw", p.out_proto_mask_raw().to_val()),
        ("flags", p.flags().to_val()),
        ("reserved3", p.reserved3().to_val()),
    ]
}

pub fn acc_CfgPrtSpi(p: &CfgPrtSpiRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("portid", Val::Name(format!("{:?}", p.portid()))),
        ("portid_raw", p.portid_raw().to_val()),
        ("reserved0", p.reserved0().to_val()),
        ("tx_ready", p.tx_ready().to_val()),
        ("mode", p.mode().to_val()),
        ("reserved3", p.reserved3().to_val()),
        ("in_proto_mask", (p.in_proto_mask().bits()).to_val()),
        ("in_proto_mask#flags", Val::FlagSet(vec![p.in_proto_mask().contains(InProtoMask::UBLOX), p.in_proto_mask().contains(InProtoMask::NMEA), p.in_proto_mask().contains(InProtoMask::RTCM), p.in_proto_mask().contains(InProtoMask::RTCM3)])),
        ("in_proto_mask_raw", p.in_proto_mask_raw().to_val()),
        ("out_proto_mask", (p.out_proto_mask().bits()).to_val()),
        ("out_proto_mask#flags", Val::FlagSet(vec![p.out_proto_mask().contains(OutProtoMask::UBLOX), p.out_proto_mask().contains(OutProtoMask::NMEA), p.out_proto_mask().contains(OutProtoMask::RTCM3)])),
        ("out_proto_mask_raw", p.out_proto_mask_raw().to_val()),
        ("flags", p.flags().to_val()),
        ("reserved5", p.reserved5().to_val()),
    ]
}

pub fn acc_CfgPrtUart(p: &CfgPrtUartRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("portid", Val::Name(format!("{:?}", p.portid()))),
        ("portid_raw", p.portid_raw().to_val()),
        ("reserved0", p.reserved0().to_val()),
        ("tx_ready", p.tx_ready().to_val()),
        ("mode", p.mode().to_val()),
        ("mode_raw", p.mode_raw().to_val()),
        ("baud_rate", p.baud_rate().to_val()),
        ("in_proto_mask", (p.in_proto_mask().bits()).to_val()),
        ("in_proto_mask#flags", Val::FlagSet(vec![p.in_proto_mask().contains(InProtoMask::UBLOX), p.in_proto_mask().contains(InProtoMask::NMEA), p.in_proto_mask().contains(InProtoMask::RTCM), p.in_proto_mask().contains(InProtoMask::RTCM3)])),
        ("in_proto_mask_raw", p.in_proto_mask_raw().to_val()),
        ("out_proto_mask", (p.out_proto_mask().bits()).to_val()),
        ("out_proto_mask#flags", Val::FlagSet(vec![p.out_proto_mask().contains(OutProtoMask::UBLOX), p.out_proto_mask().contains(OutProtoMask::NMEA), p.out_proto_mask().contains(OutProtoMask::RTCM3)])),
        ("out_proto_mask_raw", p.out_proto_mask_raw().to_val()),
        ("flags", p.flags().to_val()),
        ("reserved5", p.reserved5().to_val()),
    ]
}

pub fn acc_CfgNav5(p: &CfgNav5Ref<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("mask", (p.mask().bits()).to_val()),
        ("mask#flags", Val::FlagSet(vec![p.mask().contains(CfgNav5Params::DYN), p.mask().contains(CfgNav5Params::MIN_EL), p.mask().contains(CfgNav5Params::POS_FIX_MODE), p.mask().contains(CfgNav5Params::DR_LIM), p.mask().contains(CfgNav5Params::POS_MASK_APPLY), p.mask().contains(CfgNav5Params::TIME_MASK), p.mask().contains(CfgNav5Params::STATIC_HOLD_MASK), p.mask().contains(CfgNav5Params::DGPS_MASK), p.mask().contains(CfgNav5Params::CNO_THRESHOLD), p.mask().contains(CfgNav5Params::UTC)])),
        ("mask_raw", p.mask_raw().to_val()),
        ("dyn_model", Val::Name(format!("{:?}", p.dyn_model()))),
        ("dyn_model_raw", p.dyn_model_raw().to_val()),
        ("fix_mode", Val::Name(format!("{:?}", p.fix_mode()))),
        ("fix_mode_raw", p.fix_mode_raw().to_val()),
        ("fixed_alt", p.fixed_alt().to_val()),
        ("fixed_alt_raw", p.fixed_alt_raw().to_val()),
        ("fixed_alt_var", p.fixed_alt_var().to_val()),
        ("fixed_alt_var_raw", p.fixed_alt_var_raw().to_val()),
        ("min_elev_degrees", p.min_elev_degrees().to_val()),
        ("dr_limit", p.dr_limit().to_val()),
        ("pdop", p.pdop().to_val()),
        ("pdop_raw", p.pdop_raw().to_val()),
        ("tdop", p.tdop().to_val()),
        ("tdop_raw", p.tdop_raw().to_val()),
        ("pacc", p.pacc().to_val()),
        ("tacc", p.tacc().to_val()),
        ("static_hold_thresh", p.static_hold_thresh().to_val()),
        ("static_hold_thresh_raw", p.static_hold_thresh_raw().to_val()),
        ("dgps_time_out", p.dgps_time_out().to_val()),
        ("cno_thresh_num_svs", p.cno_thresh_num_svs().to_val()),
        ("cno_thresh", p.cno_thresh().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("static_hold_max_dist", p.static_hold_max_dist().to_val()),
        ("utc_standard", Val::Name(format!("{:?}", p.utc_standard()))),
        ("utc_standard_raw", p.utc_standard_raw().to_val()),
        ("reserved2", p.reserved2().to_val()),
    ]
}

pub fn acc_CfgAnt(p: &CfgAntRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(AntFlags::SVCS), p.flags().contains(AntFlags::SCD), p.flags().contains(AntFlags::OCD), p.flags().contains(AntFlags::PDWN_ON_SCD), p.flags().contains(AntFlags::RECOVERY)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("pins", p.pins().to_val()),
    ]
}

pub fn acc_CfgTmode2(p: &CfgTmode2Ref<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("time_transfer_mode", Val::Name(format!("{:?}", p.time_transfer_mode()))),
        ("time_transfer_mode_raw", p.time_transfer_mode_raw().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(CfgTmode2Flags::LLA), p.flags().contains(CfgTmode2Flags::ALT_INVALID)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("ecef_x_or_lat", p.ecef_x_or_lat().to_val()),
        ("ecef_x_or_lat_raw", p.ecef_x_or_lat_raw().to_val()),
        ("ecef_y_or_lon", p.ecef_y_or_lon().to_val()),
        ("ecef_y_or_lon_raw", p.ecef_y_or_lon_raw().to_val()),
        ("ecef_z_or_alt", p.ecef_z_or_alt().to_val()),
        ("ecef_z_or_alt_raw", p.ecef_z_or_alt_raw().to_val()),
        ("fixed_pos_acc", p.fixed_pos_acc().to_val()),
        ("fixed_pos_acc_raw", p.fixed_pos_acc_raw().to_val()),
        ("survey_in_min_duration", p.survey_in_min_duration().to_val()),
        ("survery_in_accur_limit", p.survery_in_accur_limit().to_val()),
        ("survery_in_accur_limit_raw", p.survery_in_accur_limit_raw().to_val()),
    ]
}

pub fn acc_CfgTmode3(p: &CfgTmode3Ref<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("rcvr_mode", (p.rcvr_mode().bits()).to_val()),
        ("rcvr_mode#flags", Val::FlagSet(vec![p.rcvr_mode().contains(CfgTmode3RcvrMode::DISABLED), p.rcvr_mode().contains(CfgTmode3RcvrMode::SURVEY_IN), p.rcvr_mode().contains(CfgTmode3RcvrMode::FIXED_MODE)])),
        ("rcvr_mode_raw", p.rcvr_mode_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(CfgTmode3Flags::LLA)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("ecef_x_or_lat", p.ecef_x_or_lat().to_val()),
        ("ecef_x_or_lat_raw", p.ecef_x_or_lat_raw().to_val()),
        ("ecef_y_or_lon", p.ecef_y_or_lon().to_val()),
        ("ecef_y_or_lon_raw", p.ecef_y_or_lon_raw().to_val()),
        ("ecef_z_or_alt", p.ecef_z_or_alt().to_val()),
        ("ecef_z_or_alt_raw", p.ecef_z_or_alt_raw().to_val()),
        ("ecef_x_or_lat_hp", p.ecef_x_or_lat_hp().to_val()),
        ("ecef_x_or_lat_hp_raw", p.ecef_x_or_lat_hp_raw().to_val()),
        ("ecef_y_or_lon_hp", p.ecef_y_or_lon_hp().to_val()),
        ("ecef_y_or_lon_hp_raw", p.ecef_y_or_lon_hp_raw().to_val()),
        ("ecef_z_or_alt_hp", p.ecef_z_or_alt_hp().to_val()),
        ("ecef_z_or_alt_hp_raw", p.ecef_z_or_alt_hp_raw().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("fixed_pos_acc", p.fixed_pos_acc().to_val()),
        ("fixed_pos_acc_raw", p.fixed_pos_acc_raw().to_val()),
        ("sv_in_min_duration", p.sv_in_min_duration().to_val()),
        ("sv_in_accur_limit", p.sv_in_accur_limit().to_val()),
        ("sv_in_accur_limit_raw", p.sv_in_accur_limit_raw().to_val()),
        ("reserved3", p.reserved3().to_val()),
    ]
}

pub fn acc_CfgTp5(p: &CfgTp5Ref<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("tp_idx", Val::Name(format!("{:?}", p.tp_idx()))),
        ("tp_idx_raw", p.tp_idx_raw().to_val()),
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("ant_cable_delay", p.ant_cable_delay().to_val()),
        ("ant_cable_delay_raw", p.ant_cable_delay_raw().to_val()),
        ("rf_group_delay", p.rf_group_delay().to_val()),
        ("rf_group_delay_raw", p.rf_group_delay_raw().to_val()),
        ("freq_period", p.freq_period().to_val()),
        ("freq_period_raw", p.freq_period_raw().to_val()),
        ("freq_period_lock", p.freq_period_lock().to_val()),
        ("freq_period_lock_raw", p.freq_period_lock_raw().to_val()),
        ("pulse_len_ratio", p.pulse_len_ratio().to_val()),
        ("pulse_len_ratio_raw", p.pulse_len_ratio_raw().to_val()),
        ("pulse_len_ratio_lock", p.pulse_len_ratio_lock().to_val()),
        ("pulse_len_ratio_lock_raw", p.pulse_len_ratio_lock_raw().to_val()),
        ("user_delay", p.user_delay().to_val()),
        ("user_delay_raw", p.user_delay_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(CfgTp5Flags::ACTIVE), p.flags().contains(CfgTp5Flags::LOCK_GNSS_FREQ), p.flags().contains(CfgTp5Flags::LOCKED_OTHER_SET), p.flags().contains(CfgTp5Flags::IS_FREQ), p.flags().contains(CfgTp5Flags::IS_LENGTH), p.flags().contains(CfgTp5Flags::ALIGN_TO_TOW), p.flags().contains(CfgTp5Flags::POLARITY), p.flags().contains(CfgTp5Flags::UTC_TIME_GRID), p.flags().contains(CfgTp5Flags::GPS_TIME_GRID), p.flags().contains(CfgTp5Flags::GLO_TIME_GRID), p.flags().contains(CfgTp5Flags::BDS_TIME_GRID), p.flags().contains(CfgTp5Flags::GAL_TIME_GRID), p.flags().contains(CfgTp5Flags::SYNC_MODE_0), p.flags().contains(CfgTp5Flags::SYNC_MODE_1)])),
        ("flags_raw", p.flags_raw().to_val()),
    ]
}

pub fn acc_InfError(p: &InfErrorRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("message", p.message().to_val()),
    ]
}

pub fn acc_InfWarning(p: &InfWarningRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("message", p.message().to_val()),
    ]
}

pub fn acc_InfNotice(p: &InfNoticeRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("message", p.message().to_val()),
    ]
}

pub fn acc_InfTest(p: &InfTestRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("message", p.message().to_val()),
    ]
}

pub fn acc_InfDebug(p: &InfDebugRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("message", p.message().to_val()),
    ]
}

pub fn acc_RxmRawx(p: &RxmRawxRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("rcv_tow", p.rcv_tow().to_val()),
        ("week", p.week().to_val()),
        ("leap_s", p.leap_s().to_val()),
        ("num_meas", p.num_meas().to_val()),
        ("rec_stat", (p.rec_stat().bits()).to_val()),
        ("rec_stat#flags", Val::FlagSet(vec![p.rec_stat().contains(RecStatFlags::LEAP_SEC), p.rec_stat().contains(RecStatFlags::CLK_RESET)])),
        ("rec_stat_raw", p.rec_stat_raw().to_val()),
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("measurements", list(|| p.measurements(), |x| Val::Map(acc_RxmRawxInfo(&x)))),
    ]
}

pub fn acc_TimTp(p: &TimTpRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("tow_ms", p.tow_ms().to_val()),
        ("tow_sub_ms", p.tow_sub_ms().to_val()),
        ("q_err", p.q_err().to_val()),
        ("week", p.week().to_val()),
        ("flags", p.flags().to_val()),
        ("flags_raw", p.flags_raw().to_val()),
        ("ref_info", p.ref_info().to_val()),
        ("ref_info_raw", p.ref_info_raw().to_val()),
    ]
}

pub fn acc_TimTm2(p: &TimTm2Ref<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("ch", p.ch().to_val()),
        ("flags", p.flags().to_val()),
        ("flags_raw", p.flags_raw().to_val()),
        ("count", p.count().to_val()),
        ("wn_r", p.wn_r().to_val()),
        ("wn_f", p.wn_f().to_val()),
        ("tow_ms_r", p.tow_ms_r().to_val()),
        ("tow_sub_ms_r", p.tow_sub_ms_r().to_val()),
        ("tow_ms_f", p.tow_ms_f().to_val()),
        ("tow_sub_ms_f", p.tow_sub_ms_f().to_val()),
        ("acc_est", p.acc_est().to_val()),
    ]
}

pub fn acc_MonVer(p: &MonVerRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("software_version", p.software_version().to_val()),
        ("software_version_raw", p.software_version_raw().to_val()),
        ("hardware_version", p.hardware_version().to_val()),
        ("hardware_version_raw", p.hardware_version_raw().to_val()),
        ("extension", list(|| p.extension(), |x| x.to_val())),
    ]
}

pub fn acc_MonGnss(p: &MonGnssRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("supported", (p.supported().bits()).to_val()),
        ("supported#flags", Val::FlagSet(vec![p.supported().contains(MonGnssConstellMask::GPS), p.supported().contains(MonGnssConstellMask::GLO), p.supported().contains(MonGnssConstellMask::BDC), p.supported().contains(MonGnssConstellMask::GAL)])),
        ("supported_raw", p.supported_raw().to_val()),
        ("default", (p.default().bits()).to_val()),
        ("default#flags", Val::FlagSet(vec![p.default().contains(MonGnssConstellMask::GPS), p.default().contains(MonGnssConstellMask::GLO), p.default().contains(MonGnssConstellMask::BDC), p.default().contains(MonGnssConstellMask::GAL)])),
        ("default_raw", p.default_raw().to_val()),
        ("enabled", (p.enabled().bits()).to_val()),
        ("enabled#flags", Val::FlagSet(vec![p.enabled().contains(MonGnssConstellMask::GPS), p.enabled().contains(MonGnssConstellMask::GLO), p.enabled().contains(MonGnssConstellMask::BDC), p.enabled().contains(MonGnssConstellMask::GAL)])),
        ("enabled_raw", p.enabled_raw().to_val()),
        ("simultaneous", p.simultaneous().to_val()),
        ("reserved1", p.reserved1().to_val()),
    ]
}

pub fn acc_MonHw(p: &MonHwRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("pin_sel", p.pin_sel().to_val()),
        ("pin_bank", p.pin_bank().to_val()),
        ("pin_dir", p.pin_dir().to_val()),
        ("pin_val", p.pin_val().to_val()),
        ("noise_per_ms", p.noise_per_ms().to_val()),
        ("agc_cnt", p.agc_cnt().to_val()),
        ("a_status", Val::Name(format!("{:?}", p.a_status()))),
        ("a_status_raw", p.a_status_raw().to_val()),
        ("a_power", Val::Name(format!("{:?}", p.a_power()))),
        ("a_power_raw", p.a_power_raw().to_val()),
        ("flags", p.flags().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("used_mask", p.used_mask().to_val()),
        ("vp", p.vp().to_val()),
        ("jam_ind", p.jam_ind().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("pin_irq", p.pin_irq().to_val()),
        ("pull_h", p.pull_h().to_val()),
        ("pull_l", p.pull_l().to_val()),
    ]
}

pub fn acc_RxmRtcm(p: &RxmRtcmRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("flags", p.flags().to_val()),
        ("sub_type", p.sub_type().to_val()),
        ("ref_station", p.ref_station().to_val()),
        ("msg_type", p.msg_type().to_val()),
    ]
}

pub fn acc_EsfMeas(p: &EsfMeasRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("time_tag", p.time_tag().to_val()),
        ("flags", p.flags().to_val()),
        ("id", p.id().to_val()),
        ("data", list(|| p.data(), |x| x.to_val())),
        ("calib_tag", p.calib_tag().to_val()),
    ]
}

pub fn acc_EsfIns(p: &EsfInsRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("bit_field", (p.bit_field().bits()).to_val()),
        ("bit_field#flags", Val::FlagSet(vec![p.bit_field().contains(EsfInsBitFlags::VERSION), p.bit_field().contains(EsfInsBitFlags::X_ANG_RATE_VALID), p.bit_field().contains(EsfInsBitFlags::Y_ANG_RATE_VALID), p.bit_field().contains(EsfInsBitFlags::Z_ANG_RATE_VALID), p.bit_field().contains(EsfInsBitFlags::X_ACCEL_VALID), p.bit_field().contains(EsfInsBitFlags::Y_ACCEL_VALID), p.bit_field().contains(EsfInsBitFlags::Z_ACCEL_VALID)])),
        ("bit_field_raw", p.bit_field_raw().to_val()),
        ("reserved", p.reserved().to_val()),
        ("itow", p.itow().to_val()),
        ("x_angular_rate", p.x_angular_rate().to_val()),
        ("x_angular_rate_raw", p.x_angular_rate_raw().to_val()),
        ("y_angular_rate", p.y_angular_rate().to_val()),
        ("y_angular_rate_raw", p.y_angular_rate_raw().to_val()),
        ("z_angular_rate", p.z_angular_rate().to_val()),
        ("z_angular_rate_raw", p.z_angular_rate_raw().to_val()),
        ("x_acceleration", p.x_acceleration().to_val()),
        ("x_acceleration_raw", p.x_acceleration_raw().to_val()),
        ("y_acceleration", p.y_acceleration().to_val()),
        ("y_acceleration_raw", p.y_acceleration_raw().to_val()),
        ("z_acceleration", p.z_acceleration().to_val()),
        ("z_acceleration_raw", p.z_acceleration_raw().to_val()),
    ]
}

pub fn acc_HnrAtt(p: &HnrAttRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("vehicle_roll", p.vehicle_roll().to_val()),
        ("vehicle_roll_raw", p.vehicle_roll_raw().to_val()),
        ("vehicle_pitch", p.vehicle_pitch().to_val()),
        ("vehicle_pitch_raw", p.vehicle_pitch_raw().to_val()),
        ("vehicle_heading", p.vehicle_heading().to_val()),
        ("vehicle_heading_raw", p.vehicle_heading_raw().to_val()),
        ("vehicle_roll_accuracy", p.vehicle_roll_accuracy().to_val()),
        ("vehicle_roll_accuracy_raw", p.vehicle_roll_accuracy_raw().to_val()),
        ("vehicle_pitch_accuracy", p.vehicle_pitch_accuracy().to_val()),
        ("vehicle_pitch_accuracy_raw", p.vehicle_pitch_accuracy_raw().to_val()),
        ("vehicle_heading_accuracy", p.vehicle_heading_accuracy().to_val()),
        ("vehicle_heading_accuracy_raw", p.vehicle_heading_accuracy_raw().to_val()),
    ]
}

pub fn acc_HnrIns(p: &HnrInsRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("bit_field", (p.bit_field().bits()).to_val()),
        ("bit_field#flags", Val::FlagSet(vec![p.bit_field().contains(HnrInsBitFlags::VERSION), p.bit_field().contains(HnrInsBitFlags::X_ANG_RATE_VALID), p.bit_field().contains(HnrInsBitFlags::Y_ANG_RATE_VALID), p.bit_field().contains(HnrInsBitFlags::Z_ANG_RATE_VALID), p.bit_field().contains(HnrInsBitFlags::X_ACCEL_VALID), p.bit_field().contains(HnrInsBitFlags::Y_ACCEL_VALID), p.bit_field().contains(HnrInsBitFlags::Z_ACCEL_VALID)])),
        ("bit_field_raw", p.bit_field_raw().to_val()),
        ("reserved", p.reserved().to_val()),
        ("itow", p.itow().to_val()),
        ("x_angular_rate", p.x_angular_rate().to_val()),
        ("x_angular_rate_raw", p.x_angular_rate_raw().to_val()),
        ("y_angular_rate", p.y_angular_rate().to_val()),
        ("y_angular_rate_raw", p.y_angular_rate_raw().to_val()),
        ("z_angular_rate", p.z_angular_rate().to_val()),
        ("z_angular_rate_raw", p.z_angular_rate_raw().to_val()),
        ("x_acceleration", p.x_acceleration().to_val()),
        ("x_acceleration_raw", p.x_acceleration_raw().to_val()),
        ("y_acceleration", p.y_acceleration().to_val()),
        ("y_acceleration_raw", p.y_acceleration_raw().to_val()),
        ("z_acceleration", p.z_acceleration().to_val()),
        ("z_acceleration_raw", p.z_acceleration_raw().to_val()),
    ]
}

pub fn acc_HnrPvt(p: &HnrPvtRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("year", p.year().to_val()),
        ("month", p.month().to_val()),
        ("day", p.day().to_val()),
        ("hour", p.hour().to_val()),
        ("min", p.min().to_val()),
        ("sec", p.sec().to_val()),
        ("valid", (p.valid().bits()).to_val()),
        ("valid#flags", Val::FlagSet(vec![p.valid().contains(HnrPvtValidFlags::VALID_DATE), p.valid().contains(HnrPvtValidFlags::VALID_TIME), p.valid().contains(HnrPvtValidFlags::FULLY_RESOLVED)])),
        ("valid_raw", p.valid_raw().to_val()),
        ("nano", p.nano().to_val()),
        ("gps_fix", Val::Name(format!("{:?}", p.gps_fix()))),
        ("gps_fix_raw", p.gps_fix_raw().to_val()),
        ("flags", (p.flags().bits()).to_val()),
        ("flags#flags", Val::FlagSet(vec![p.flags().contains(HnrPvtFlags::GPS_FIX_OK), p.flags().contains(HnrPvtFlags::DIFF_SOLN), p.flags().contains(HnrPvtFlags::WKN_SET), p.flags().contains(HnrPvtFlags::TOW_SET), p.flags().contains(HnrPvtFlags::HEAD_VEH_VALID)])),
        ("flags_raw", p.flags_raw().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("longitude", p.longitude().to_val()),
        ("longitude_raw", p.longitude_raw().to_val()),
        ("latitude", p.latitude().to_val()),
        ("latitude_raw", p.latitude_raw().to_val()),
        ("height_above_ellipsoid", p.height_above_ellipsoid().to_val()),
        ("height_above_ellipsoid_raw", p.height_above_ellipsoid_raw().to_val()),
        ("height_msl", p.height_msl().to_val()),
        ("height_msl_raw", p.height_msl_raw().to_val()),
        ("ground_speed_2d", p.ground_speed_2d().to_val()),
        ("ground_speed_2d_raw", p.ground_speed_2d_raw().to_val()),
        ("speed_3d", p.speed_3d().to_val()),
        ("speed_3d_raw", p.speed_3d_raw().to_val()),
        ("heading_motion", p.heading_motion().to_val()),
        ("heading_motion_raw", p.heading_motion_raw().to_val()),
        ("heading_vehicle", p.heading_vehicle().to_val()),
        ("heading_vehicle_raw", p.heading_vehicle_raw().to_val()),
        ("h_acc", p.h_acc().to_val()),
        ("v_acc", p.v_acc().to_val()),
        ("s_acc", p.s_acc().to_val()),
        ("heading_accurracy", p.heading_accurracy().to_val()),
        ("heading_accurracy_raw", p.heading_accurracy_raw().to_val()),
        ("reserved2", p.reserved2().to_val()),
    ]
}

pub fn acc_NavAtt(p: &NavAttRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("vehicle_roll", p.vehicle_roll().to_val()),
        ("vehicle_roll_raw", p.vehicle_roll_raw().to_val()),
        ("vehicle_pitch", p.vehicle_pitch().to_val()),
        ("vehicle_pitch_raw", p.vehicle_pitch_raw().to_val()),
        ("vehicle_heading", p.vehicle_heading().to_val()),
        ("vehicle_heading_raw", p.vehicle_heading_raw().to_val()),
        ("vehicle_roll_accuracy", p.vehicle_roll_accuracy().to_val()),
        ("vehicle_roll_accuracy_raw", p.vehicle_roll_accuracy_raw().to_val()),
        ("vehicle_pitch_accuracy", p.vehicle_pitch_accuracy().to_val()),
        ("vehicle_pitch_accuracy_raw", p.vehicle_pitch_accuracy_raw().to_val()),
        ("vehicle_heading_accuracy", p.vehicle_heading_accuracy().to_val()),
        ("vehicle_heading_accuracy_raw", p.vehicle_heading_accuracy_raw().to_val()),
    ]
}

pub fn acc_NavClock(p: &NavClockRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("clk_b", p.clk_b().to_val()),
        ("clk_d", p.clk_d().to_val()),
        ("t_acc", p.t_acc().to_val()),
        ("f_acc", p.f_acc().to_val()),
    ]
}

pub fn acc_NavVelECEF(p: &NavVelECEFRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("itow", p.itow().to_val()),
        ("ecef_vx", p.ecef_vx().to_val()),
        ("ecef_vy", p.ecef_vy().to_val()),
        ("ecef_vz", p.ecef_vz().to_val()),
        ("s_acc", p.s_acc().to_val()),
    ]
}

pub fn acc_MgaGpsEPH(p: &MgaGpsEPHRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("msg_type", p.msg_type().to_val()),
        ("version", p.version().to_val()),
        ("sv_id", p.sv_id().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("fit_interval", p.fit_interval().to_val()),
        ("ura_index", p.ura_index().to_val()),
        ("sv_health", p.sv_health().to_val()),
        ("tgd", p.tgd().to_val()),
        ("tgd_raw", p.tgd_raw().to_val()),
        ("iodc", p.iodc().to_val()),
        ("toc", p.toc().to_val()),
        ("toc_raw", p.toc_raw().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("af2", p.af2().to_val()),
        ("af2_raw", p.af2_raw().to_val()),
        ("afl", p.afl().to_val()),
        ("afl_raw", p.afl_raw().to_val()),
        ("af0", p.af0().to_val()),
        ("af0_raw", p.af0_raw().to_val()),
        ("crs", p.crs().to_val()),
        ("crs_raw", p.crs_raw().to_val()),
        ("delta_n", p.delta_n().to_val()),
        ("delta_n_raw", p.delta_n_raw().to_val()),
        ("m0", p.m0().to_val()),
        ("m0_raw", p.m0_raw().to_val()),
        ("cuc", p.cuc().to_val()),
        ("cuc_raw", p.cuc_raw().to_val()),
        ("cus", p.cus().to_val()),
        ("cus_raw", p.cus_raw().to_val()),
        ("e", p.e().to_val()),
        ("e_raw", p.e_raw().to_val()),
        ("sqrt_a", p.sqrt_a().to_val()),
        ("sqrt_a_raw", p.sqrt_a_raw().to_val()),
        ("toe", p.toe().to_val()),
        ("toe_raw", p.toe_raw().to_val()),
        ("cic", p.cic().to_val()),
        ("cic_raw", p.cic_raw().to_val()),
        ("omega0", p.omega0().to_val()),
        ("omega0_raw", p.omega0_raw().to_val()),
        ("cis", p.cis().to_val()),
        ("cis_raw", p.cis_raw().to_val()),
        ("crc", p.crc().to_val()),
        ("crc_raw", p.crc_raw().to_val()),
        ("i0", p.i0().to_val()),
        ("i0_raw", p.i0_raw().to_val()),
        ("omega", p.omega().to_val()),
        ("omega_raw", p.omega_raw().to_val()),
        ("omega_dot", p.omega_dot().to_val()),
        ("omega_dot_raw", p.omega_dot_raw().to_val()),
        ("idot", p.idot().to_val()),
        ("idot_raw", p.idot_raw().to_val()),
        ("reserved3", p.reserved3().to_val()),
    ]
}

pub fn acc_RxmSfrbx(p: &RxmSfrbxRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("gnss_id", p.gnss_id().to_val()),
        ("sv_id", p.sv_id().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("freq_id", p.freq_id().to_val()),
        ("num_words", p.num_words().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("version", p.version().to_val()),
        ("reserved3", p.reserved3().to_val()),
        ("dwrd", list(|| p.dwrd(), |x| x.to_val())),
    ]
}

pub fn acc_EsfRaw(p: &EsfRawRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("msss", p.msss().to_val()),
        ("data", list(|| p.data(), |x| x.to_val())),
    ]
}

pub fn acc_TimSvin(p: &TimSvinRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("dur", p.dur().to_val()),
        ("mean_x", p.mean_x().to_val()),
        ("mean_y", p.mean_y().to_val()),
        ("mean_z", p.mean_z().to_val()),
        ("mean_v", p.mean_v().to_val()),
        ("obs", p.obs().to_val()),
        ("valid", p.valid().to_val()),
        ("active", p.active().to_val()),
        ("reserved", p.reserved().to_val()),
    ]
}

pub fn acc_SecUniqId(p: &SecUniqIdRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("version", p.version().to_val()),
        ("reserved1", p.reserved1().to_val()),
        ("unique_id", p.unique_id().to_val()),
    ]
}

pub fn acc_NavSatSvInfo(p: &NavSatSvInfoRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("gnss_id", p.gnss_id().to_val()),
        ("sv_id", p.sv_id().to_val()),
        ("cno", p.cno().to_val()),
        ("elev", p.elev().to_val()),
        ("azim", p.azim().to_val()),
        ("pr_res", p.pr_res().to_val()),
        ("flags", p.flags().to_val()),
        ("flags_raw", p.flags_raw().to_val()),
    ]
}

pub fn acc_RxmRawxInfo(p: &RxmRawxInfoRef<'_>) -> Vec<(&'static str, Val)> {
    vec![
        ("pr_mes", p.pr_mes().to_val()),
        ("cp_mes", p.cp_mes().to_val()),
        ("do_mes", p.do_mes().to_val()),
        ("gnss_id", p.gnss_id().to_val()),
        ("sv_id", p.sv_id().to_val()),
        ("reserved2", p.reserved2().to_val()),
        ("freq_id", p.freq_id().to_val()),
        ("lock_time", p.lock_time().to_val()),
        ("cno", p.cno().to_val()),
        ("pr_stdev", (p.pr_stdev().bits()).to_val()),
        ("pr_stdev#flags", Val::FlagSet(vec![p.pr_stdev().contains(StdevFlags::STD_1), p.pr_stdev().contains(StdevFlags::STD_2), p.pr_stdev().contains(StdevFlags::STD_3), p.pr_stdev().contains(StdevFlags::STD_4)])),
        ("pr_stdev_raw", p.pr_stdev_raw().to_val()),
        ("cp_stdev", (p.cp_stdev().bits()).to_val()),
        ("cp_stdev#flags", Val::FlagSet(vec![p.cp_stdev().contains(StdevFlags::STD_1), p.cp_stdev().contains(StdevFlags::STD_2), p.cp_stdev().contains(StdevFlags::STD_3), p.cp_stdev().contains(StdevFlags::STD_4)])),
        ("cp_stdev_raw", p.cp_stdev_raw().to_val()),
        ("do_stdev", (p.do_stdev().bits()).to_val()),
        ("do_stdev#flags", Val::FlagSet(vec![p.do_stdev().contains(StdevFlags::STD_1), p.do_stdev().contains(StdevFlags::STD_2), p.do_stdev().contains(StdevFlags::STD_3), p.do_stdev().contains(StdevFlags::STD_4)])),
        ("do_stdev_raw", p.do_stdev_raw().to_val()),
        ("trk_stat", (p.trk_stat().bits()).to_val()),
        ("trk_stat#flags", Val::FlagSet(vec![p.trk_stat().contains(TrkStatFlags::PR_VALID), p.trk_stat().contains(TrkStatFlags::CP_VALID), p.trk_stat().contains(TrkStatFlags::HALF_CYCLE), p.trk_stat().contains(TrkStatFlags::SUB_HALF_CYCLE)])),
        ("trk_stat_raw", p.trk_stat_raw().to_val()),
        ("reserved3", p.reserved3().to_val()),
    ]
}

/// Name of the variant, the payload it exposes, and all accessor values.
pub fn acc_packet(p: &PacketRef<'_>, out: &mut crate::val::Decoded) {
    match p {
        PacketRef::NavPosLlh(x) => out.set("NavPosLlh", x.as_bytes(), acc_NavPosLlh(x)),
        PacketRef::NavStatus(x) => out.set("NavStatus", x.as_bytes(), acc_NavStatus(x)),
        PacketRef::NavDop(x) => out.set("NavDop", x.as_bytes(), acc_NavDop(x)),
        PacketRef::NavPvt(x) => out.set("NavPvt", x.as_bytes(), acc_NavPvt(x)),
        PacketRef::NavSolution(x) => out.set("NavSolution", x.as_bytes(), acc_NavSolution(x)),
        PacketRef::NavVelNed(x) => out.set("NavVelNed", x.as_bytes(), acc_NavVelNed(x)),
        PacketRef::NavHpPosLlh(x) => out.set("NavHpPosLlh", x.as_bytes(), acc_NavHpPosLlh(x)),
        PacketRef::NavHpPosEcef(x) => out.set("NavHpPosEcef", x.as_bytes(), acc_NavHpPosEcef(x)),
        PacketRef::NavTimeUTC(x) => out.set("NavTimeUTC", x.as_bytes(), acc_NavTimeUTC(x)),
        PacketRef::NavTimeLs(x) => out.set("NavTimeLs", x.as_bytes(), acc_NavTimeLs(x)),
        PacketRef::NavSat(x) => out.set("NavSat", x.as_bytes(), acc_NavSat(x)),
        PacketRef::NavEoe(x) => out.set("NavEoe", x.as_bytes(), acc_NavEoe(x)),
        PacketRef::NavOdo(x) => out.set("NavOdo", x.as_bytes(), acc_NavOdo(x)),
        PacketRef::CfgOdo(x) => out.set("CfgOdo", x.as_bytes(), acc_CfgOdo(x)),
        PacketRef::MgaAck(x) => out.set("MgaAck", x.as_bytes(), acc_MgaAck(x)),
        PacketRef::MgaGpsIono(x) => out.set("MgaGpsIono", x.as_bytes(), acc_MgaGpsIono(x)),
        PacketRef::MgaGpsEph(x) => out.set("MgaGpsEph", x.as_bytes(), acc_MgaGpsEph(x)),
        PacketRef::MgaGloEph(x) => out.set("MgaGloEph", x.as_bytes(), acc_MgaGloEph(x)),
        PacketRef::AlpSrv(x) => out.set("AlpSrv", x.as_bytes(), acc_AlpSrv(x)),
        PacketRef::AckAck(x) => out.set("AckAck", x.as_bytes(), acc_AckAck(x)),
        PacketRef::AckNak(x) => out.set("AckNak", x.as_bytes(), acc_AckNak(x)),
        PacketRef::CfgItfm(x) => out.set("CfgItfm", x.as_bytes(), acc_CfgItfm(x)),
        PacketRef::CfgPrtI2c(x) => out.set("CfgPrtI2c", x.as_bytes(), acc_CfgPrtI2c(x)),
        PacketRef::CfgPrtSpi(x) => out.set("CfgPrtSpi", x.as_bytes(), acc_CfgPrtSpi(x)),
        PacketRef::CfgPrtUart(x) => out.set("CfgPrtUart", x.as_bytes(), acc_CfgPrtUart(x)),
        PacketRef::CfgNav5(x) => out.set("CfgNav5", x.as_bytes(), acc_CfgNav5(x)),
        PacketRef::CfgAnt(x) => out.set("CfgAnt", x.as_bytes(), acc_CfgAnt(x)),
        PacketRef::CfgTmode2(x) => out.set("CfgTmode2", x.as_bytes(), acc_CfgTmode2(x)),
        PacketRef::CfgTmode3(x) => out.set("CfgTmode3", x.as_bytes(), acc_CfgTmode3(x)),
        PacketRef::CfgTp5(x) => out.set("CfgTp5", x.as_bytes(), acc_CfgTp5(x)),
        PacketRef::InfError(x) => out.set("InfError", x.as_bytes(), acc_InfError(x)),
        PacketRef::InfWarning(x) => out.set("InfWarning", x.as_bytes(), acc_InfWarning(x)),
        PacketRef::InfNotice(x) => out.set("InfNotice", x.as_bytes(), acc_InfNotice(x)),
        PacketRef::InfTest(x) => out.set("InfTest", x.as_bytes(), acc_InfTest(x)),
        PacketRef::InfDebug(x) => out.set("InfDebug", x.as_bytes(), acc_InfDebug(x)),
        PacketRef::RxmRawx(x) => out.set("RxmRawx", x.as_bytes(), acc_RxmRawx(x)),
        PacketRef::TimTp(x) => out.set("TimTp", x.as_bytes(), acc_TimTp(x)),
        PacketRef::TimTm2(x) => out.set("TimTm2", x.as_bytes(), acc_TimTm2(x)),
        PacketRef::MonVer(x) => out.set("MonVer", x.as_bytes(), acc_MonVer(x)),
        PacketRef::MonGnss(x) => out.set("MonGnss", x.as_bytes(), acc_MonGnss(x)),
        PacketRef::MonHw(x) => out.set("MonHw", x.as_bytes(), acc_MonHw(x)),
        PacketRef::RxmRtcm(x) => out.set("RxmRtcm", x.as_bytes(), acc_RxmRtcm(x)),
        PacketRef::EsfMeas(x) => out.set("EsfMeas", x.as_bytes(), acc_EsfMeas(x)),
        PacketRef::EsfIns(x) => out.set("EsfIns", x.as_bytes(), acc_EsfIns(x)),
        PacketRef::HnrAtt(x) => out.set("HnrAtt", x.as_bytes(), acc_HnrAtt(x)),
        PacketRef::HnrIns(x) => out.set("HnrIns", x.as_bytes(), acc_HnrIns(x)),
        PacketRef::HnrPvt(x) => out.set("HnrPvt", x.as_bytes(), acc_HnrPvt(x)),
        PacketRef::NavAtt(x) => out.set("NavAtt", x.as_bytes(), acc_NavAtt(x)),
        PacketRef::NavClock(x) => out.set("NavClock", x.as_bytes(), acc_NavClock(x)),
        PacketRef::NavVelECEF(x) => out.set("NavVelECEF", x.as_bytes(), acc_NavVelECEF(x)),
        PacketRef::MgaGpsEPH(x) => out.set("MgaGpsEPH", x.as_bytes(), acc_MgaGpsEPH(x)),
        PacketRef::RxmSfrbx(x) => out.set("RxmSfrbx", x.as_bytes(), acc_RxmSfrbx(x)),
        PacketRef::EsfRaw(x) => out.set("EsfRaw", x.as_bytes(), acc_EsfRaw(x)),
        PacketRef::TimSvin(x) => out.set("TimSvin", x.as_bytes(), acc_TimSvin(x)),
        PacketRef::SecUniqId(x) => out.set("SecUniqId", x.as_bytes(), acc_SecUniqId(x)),
        PacketRef::Unknown(x) => out.set_unknown(x.class, x.msg_id, x.payload),
        #[allow(unreachable_patterns)]
        _ => {},
        #[allow(unreachable_patterns)]
        _ => out.set("?", &[], vec![]),
    }
}

pub fn variant_name(p: &PacketRef<'_>) -> &'static str {
    match p {
        PacketRef::NavPosLlh(_) => "NavPosLlh",
        PacketRef::NavStatus(_) => "NavStatus",
        PacketRef::NavDop(_) => "NavDop",
        PacketRef::NavPvt(_) => "NavPvt",
        PacketRef::NavSolution(_) => "NavSolution",
        PacketRef::NavVelNed(_) => "NavVelNed",
        PacketRef::NavHpPosLlh(_) => "NavHpPosLlh",
        PacketRef::NavHpPosEcef(_) => "NavHpPosEcef",
        PacketRef::NavTimeUTC(_) => "NavTimeUTC",
        PacketRef::NavTimeLs(_) => "NavTimeLs",
        PacketRef::NavSat(_) => "NavSat",
        PacketRef::NavEoe(_) => "NavEoe",
        PacketRef::NavOdo(_) => "NavOdo",
        PacketRef::CfgOdo(_) => "CfgOdo",
        PacketRef::MgaAck(_) => "MgaAck",
        PacketRef::MgaGpsIono(_) => "MgaGpsIono",
        PacketRef::MgaGpsEph(_) => "MgaGpsEph",
        PacketRef::MgaGloEph(_) => "MgaGloEph",
        PacketRef::AlpSrv(_) => "AlpSrv",
        PacketRef::AckAck(_) => "AckAck",
        PacketRef::AckNak(_) => "AckNak",
        PacketRef::CfgItfm(_) => "CfgItfm",
        PacketRef::CfgPrtI2c(_) => "CfgPrtI2c",
        PacketRef::CfgPrtSpi(_) => "CfgPrtSpi",
        PacketRef::CfgPrtUart(_) => "CfgPrtUart",
        PacketRef::CfgNav5(_) => "CfgNav5",
        PacketRef::CfgAnt(_) => "CfgAnt",
        PacketRef::CfgTmode2(_) => "CfgTmode2",
        PacketRef::CfgTmode3(_) => "CfgTmode3",
        PacketRef::CfgTp5(_) => "CfgTp5",
        PacketRef::InfError(_) => "InfError",
        PacketRef::InfWarning(_) => "InfWarning",
        PacketRef::InfNotice(_) => "InfNotice",
        PacketRef::InfTest(_) => "InfTest",
        PacketRef::InfDebug(_) => "InfDebug",
        PacketRef::RxmRawx(_) => "RxmRawx",
        PacketRef::TimTp(_) => "TimTp",
        PacketRef::TimTm2(_) => "TimTm2",
        PacketRef::MonVer(_) => "MonVer",
        PacketRef::MonGnss(_) => "MonGnss",
        PacketRef::MonHw(_) => "MonHw",
        PacketRef::RxmRtcm(_) => "RxmRtcm",
        PacketRef::EsfMeas(_) => "EsfMeas",
        PacketRef::EsfIns(_) => "EsfIns",
        PacketRef::HnrAtt(_) => "HnrAtt",
        PacketRef::HnrIns(_) => "HnrIns",
        PacketRef::HnrPvt(_) => "HnrPvt",
        PacketRef::NavAtt(_) => "NavAtt",
        PacketRef::NavClock(_) => "NavClock",
        PacketRef::NavVelECEF(_) => "NavVelECEF",
        PacketRef::MgaGpsEPH(_) => "MgaGpsEPH",
        PacketRef::RxmSfrbx(_) => "RxmSfrbx",
        PacketRef::EsfRaw(_) => "EsfRaw",
        PacketRef::TimSvin(_) => "TimSvin",
        PacketRef::SecUniqId(_) => "SecUniqId",
        PacketRef::Unknown(_) => "Unknown",
        #[allow(unreachable_patterns)]
        _ => "a type not in the frozen table",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn packet_payload<'a>(p: &'a PacketRef<'_>) -> &'a [u8] {
    match p {
        PacketRef::NavPosLlh(x) => x.as_bytes(),
        PacketRef::NavStatus(x) => x.as_bytes(),
        PacketRef::NavDop(x) => x.as_bytes(),
        PacketRef::NavPvt(x) => x.as_bytes(),
        PacketRef::NavSolution(x) => x.as_bytes(),
        PacketRef::NavVelNed(x) => x.as_bytes(),
        PacketRef::NavHpPosLlh(x) => x.as_bytes(),
        PacketRef::NavHpPosEcef(x) => x.as_bytes(),
        PacketRef::NavTimeUTC(x) => x.as_bytes(),
        PacketRef::NavTimeLs(x) => x.as_bytes(),
        PacketRef::NavSat(x) => x.as_bytes(),
        PacketRef::NavEoe(x) => x.as_bytes(),
        PacketRef::NavOdo(x) => x.as_bytes(),
        PacketRef::CfgOdo(x) => x.as_bytes(),
        PacketRef::MgaAck(x) => x.as_bytes(),
        PacketRef::MgaGpsIono(x) => x.as_bytes(),
        PacketRef::MgaGpsEph(x) => x.as_bytes(),
        PacketRef::MgaGloEph(x) => x.as_bytes(),
        PacketRef::AlpSrv(x) => x.as_bytes(),
        PacketRef::AckAck(x) => x.as_bytes(),
        PacketRef::AckNak(x) => x.as_bytes(),
        PacketRef::CfgItfm(x) => x.as_bytes(),
        PacketRef::CfgPrtI2c(x) => x.as_bytes(),
        PacketRef::CfgPrtSpi(x) => x.as_bytes(),
        PacketRef::CfgPrtUart(x) => x.as_bytes(),
        PacketRef::CfgNav5(x) => x.as_bytes(),
        PacketRef::CfgAnt(x) => x.as_bytes(),
        PacketRef::CfgTmode2(x) => x.as_bytes(),
        PacketRef::CfgTmode3(x) => x.as_bytes(),
        PacketRef::CfgTp5(x) => x.as_bytes(),
        PacketRef::InfError(x) => x.as_bytes(),
        PacketRef::InfWarning(x) => x.as_bytes(),
        PacketRef::InfNotice(x) => x.as_bytes(),
        PacketRef::InfTest(x) => x.as_bytes(),
        PacketRef::InfDebug(x) => x.as_bytes(),
        PacketRef::RxmRawx(x) => x.as_bytes(),
        PacketRef::TimTp(x) => x.as_bytes(),
        PacketRef::TimTm2(x) => x.as_bytes(),
        PacketRef::MonVer(x) => x.as_bytes(),
        PacketRef::MonGnss(x) => x.as_bytes(),
        PacketRef::MonHw(x) => x.as_bytes(),
        PacketRef::RxmRtcm(x) => x.as_bytes(),
        PacketRef::EsfMeas(x) => x.as_bytes(),
        PacketRef::EsfIns(x) => x.as_bytes(),
        PacketRef::HnrAtt(x) => x.as_bytes(),
        PacketRef::HnrIns(x) => x.as_bytes(),
        PacketRef::HnrPvt(x) => x.as_bytes(),
        PacketRef::NavAtt(x) => x.as_bytes(),
        PacketRef::NavClock(x) => x.as_bytes(),
        PacketRef::NavVelECEF(x) => x.as_bytes(),
        PacketRef::MgaGpsEPH(x) => x.as_bytes(),
        PacketRef::RxmSfrbx(x) => x.as_bytes(),
        PacketRef::EsfRaw(x) => x.as_bytes(),
        PacketRef::TimSvin(x) => x.as_bytes(),
        PacketRef::SecUniqId(x) => x.as_bytes(),
        PacketRef::Unknown(x) => x.payload,
        #[allow(unreachable_patterns)]
        _ => &[],
        #[allow(unreachable_patterns)]
        _ => &[],
    }
}
/// The message in serialised form by itself, not as one of the messages there are.
#[cfg(not(feature = "lite"))]
pub fn json_alone(p: &PacketRef<'_>) -> Result<serde_json::Value, serde_json::Error> {
    match p {
        PacketRef::NavPosLlh(x) => serde_json::to_value(x),
        PacketRef::NavStatus(x) => serde_json::to_value(x),
        PacketRef::NavDop(x) => serde_json::to_value(x),
        PacketRef::NavPvt(x) => serde_json::to_value(x),
        PacketRef::NavSolution(x) => serde_json::to_value(x),
        PacketRef::NavVelNed(x) => serde_json::to_value(x),
        PacketRef::NavHpPosLlh(x) => serde_json::to_value(x),
        PacketRef::NavHpPosEcef(x) => serde_json::to_value(x),
        PacketRef::NavTimeUTC(x) => serde_json::to_value(x),
        PacketRef::NavTimeLs(x) => serde_json::to_value(x),
        PacketRef::NavSat(x) => serde_json::to_value(x),
        PacketRef::NavEoe(x) => serde_json::to_value(x),
        PacketRef::NavOdo(x) => serde_json::to_value(x),
        PacketRef::CfgOdo(x) => serde_json::to_value(x),
        PacketRef::MgaAck(x) => serde_json::to_value(x),
        PacketRef::MgaGpsIono(x) => serde_json::to_value(x),
        PacketRef::MgaGpsEph(x) => serde_json::to_value(x),
        PacketRef::MgaGloEph(x) => serde_json::to_value(x),
        PacketRef::AlpSrv(x) => serde_json::to_value(x),
        PacketRef::AckAck(x) => serde_json::to_value(x),
        PacketRef::AckNak(x) => serde_json::to_value(x),
        PacketRef::CfgItfm(x) => serde_json::to_value(x),
        PacketRef::CfgPrtI2c(x) => serde_json::to_value(x),
        PacketRef::CfgPrtSpi(x) => serde_json::to_value(x),
        PacketRef::CfgPrtUart(x) => serde_json::to_value(x),
        PacketRef::CfgNav5(x) => serde_json::to_value(x),
        PacketRef::CfgAnt(x) => serde_json::to_value(x),
        PacketRef::CfgTmode2(x) => serde_json::to_value(x),
        PacketRef::CfgTmode3(x) => serde_json::to_value(x),
        PacketRef::CfgTp5(x) => serde_json::to_value(x),
        PacketRef::InfError(x) => serde_json::to_value(x),
        PacketRef::InfWarning(x) => serde_json::to_value(x),
        PacketRef::InfNotice(x) => serde_json::to_value(x),
        PacketRef::InfTest(x) => serde_json::to_value(x),
        PacketRef::InfDebug(x) => serde_json::to_value(x),
        PacketRef::RxmRawx(x) => serde_json::to_value(x),
        PacketRef::TimTp(x) => serde_json::to_value(x),
        PacketRef::TimTm2(x) => serde_json::to_value(x),
        PacketRef::MonVer(x) => serde_json::to_value(x),
        PacketRef::MonGnss(x) => serde_json::to_value(x),
        PacketRef::MonHw(x) => serde_json::to_value(x),
        PacketRef::RxmRtcm(x) => serde_json::to_value(x),
        PacketRef::EsfMeas(x) => serde_json::to_value(x),
        PacketRef::EsfIns(x) => serde_json::to_value(x),
        PacketRef::HnrAtt(x) => serde_json::to_value(x),
        PacketRef::HnrIns(x) => serde_json::to_value(x),
        PacketRef::HnrPvt(x) => serde_json::to_value(x),
        PacketRef::NavAtt(x) => serde_json::to_value(x),
        PacketRef::NavClock(x) => serde_json::to_value(x),
        PacketRef::NavVelECEF(x) => serde_json::to_value(x),
        PacketRef::MgaGpsEPH(x) => serde_json::to_value(x),
        PacketRef::RxmSfrbx(x) => serde_json::to_value(x),
        PacketRef::EsfRaw(x) => serde_json::to_value(x),
        PacketRef::TimSvin(x) => serde_json::to_value(x),
        PacketRef::SecUniqId(x) => serde_json::to_value(x),
        PacketRef::Unknown(x) => serde_json::to_value(x),
        #[allow(unreachable_patterns)]
        _ => Ok(serde_json::Value::Null),
    }
}
