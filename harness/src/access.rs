// Generated by spec/gen.py: calls every public accessor and builder of the crate by name.
#![allow(clippy::all, unused_variables, unreachable_patterns, non_snake_case)]
use crate::val::*;
use crate::emit::*;
use ublox::*;

pub fn rec_NavPosLlh(r: &NavPosLlhRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("lon_degrees_raw", catch(|| r.lon_degrees_raw().val())),
  ("lon_degrees", catch(|| r.lon_degrees().val())),
  ("lat_degrees_raw", catch(|| r.lat_degrees_raw().val())),
  ("lat_degrees", catch(|| r.lat_degrees().val())),
  ("height_meters_raw", catch(|| r.height_meters_raw().val())),
  ("height_meters", catch(|| r.height_meters().val())),
  ("height_msl_raw", catch(|| r.height_msl_raw().val())),
  ("height_msl", catch(|| r.height_msl().val())),
  ("h_ack_raw", catch(|| r.h_ack_raw().val())),
  ("h_ack", catch(|| r.h_ack().val())),
  ("v_acc_raw", catch(|| r.v_acc_raw().val())),
  ("v_acc", catch(|| r.v_acc().val())),
] }
pub fn rec_NavStatus(r: &NavStatusRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("fix_type_raw", catch(|| r.fix_type_raw().val())),
  ("fix_type", catch(|| r.fix_type().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("fix_stat_raw", catch(|| r.fix_stat_raw().val())),
  ("fix_stat", catch(|| r.fix_stat().val())),
  ("flags2_raw", catch(|| r.flags2_raw().val())),
  ("flags2", catch(|| r.flags2().val())),
  ("time_to_first_fix", catch(|| r.time_to_first_fix().val())),
  ("uptime_ms", catch(|| r.uptime_ms().val())),
] }
pub fn rec_NavDop(r: &NavDopRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("geometric_dop_raw", catch(|| r.geometric_dop_raw().val())),
  ("geometric_dop", catch(|| r.geometric_dop().val())),
  ("position_dop_raw", catch(|| r.position_dop_raw().val())),
  ("position_dop", catch(|| r.position_dop().val())),
  ("time_dop_raw", catch(|| r.time_dop_raw().val())),
  ("time_dop", catch(|| r.time_dop().val())),
  ("vertical_dop_raw", catch(|| r.vertical_dop_raw().val())),
  ("vertical_dop", catch(|| r.vertical_dop().val())),
  ("horizontal_dop_raw", catch(|| r.horizontal_dop_raw().val())),
  ("horizontal_dop", catch(|| r.horizontal_dop().val())),
  ("northing_dop_raw", catch(|| r.northing_dop_raw().val())),
  ("northing_dop", catch(|| r.northing_dop().val())),
  ("easting_dop_raw", catch(|| r.easting_dop_raw().val())),
  ("easting_dop", catch(|| r.easting_dop().val())),
] }
pub fn rec_NavPvt(r: &NavPvtRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("year", catch(|| r.year().val())),
  ("month", catch(|| r.month().val())),
  ("day", catch(|| r.day().val())),
  ("hour", catch(|| r.hour().val())),
  ("min", catch(|| r.min().val())),
  ("sec", catch(|| r.sec().val())),
  ("valid", catch(|| r.valid().val())),
  ("time_accuracy", catch(|| r.time_accuracy().val())),
  ("nanosecond", catch(|| r.nanosecond().val())),
  ("fix_type_raw", catch(|| r.fix_type_raw().val())),
  ("fix_type", catch(|| r.fix_type().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("flags2_raw", catch(|| r.flags2_raw().val())),
  ("flags2", catch(|| r.flags2().val())),
  ("num_satellites", catch(|| r.num_satellites().val())),
  ("lon_degrees_raw", catch(|| r.lon_degrees_raw().val())),
  ("lon_degrees", catch(|| r.lon_degrees().val())),
  ("lat_degrees_raw", catch(|| r.lat_degrees_raw().val())),
  ("lat_degrees", catch(|| r.lat_degrees().val())),
  ("height_meters_raw", catch(|| r.height_meters_raw().val())),
  ("height_meters", catch(|| r.height_meters().val())),
  ("height_msl_raw", catch(|| r.height_msl_raw().val())),
  ("height_msl", catch(|| r.height_msl().val())),
  ("horiz_accuracy", catch(|| r.horiz_accuracy().val())),
  ("vert_accuracy", catch(|| r.vert_accuracy().val())),
  ("vel_north_raw", catch(|| r.vel_north_raw().val())),
  ("vel_north", catch(|| r.vel_north().val())),
  ("vel_east_raw", catch(|| r.vel_east_raw().val())),
  ("vel_east", catch(|| r.vel_east().val())),
  ("vel_down_raw", catch(|| r.vel_down_raw().val())),
  ("vel_down", catch(|| r.vel_down().val())),
  ("ground_speed_raw", catch(|| r.ground_speed_raw().val())),
  ("ground_speed", catch(|| r.ground_speed().val())),
  ("heading_degrees_raw", catch(|| r.heading_degrees_raw().val())),
  ("heading_degrees", catch(|| r.heading_degrees().val())),
  ("speed_accuracy_estimate_raw", catch(|| r.speed_accuracy_estimate_raw().val())),
  ("speed_accuracy_estimate", catch(|| r.speed_accuracy_estimate().val())),
  ("heading_accuracy_estimate_raw", catch(|| r.heading_accuracy_estimate_raw().val())),
  ("heading_accuracy_estimate", catch(|| r.heading_accuracy_estimate().val())),
  ("pdop", catch(|| r.pdop().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("heading_of_vehicle_degrees_raw", catch(|| r.heading_of_vehicle_degrees_raw().val())),
  ("heading_of_vehicle_degrees", catch(|| r.heading_of_vehicle_degrees().val())),
  ("magnetic_declination_degrees_raw", catch(|| r.magnetic_declination_degrees_raw().val())),
  ("magnetic_declination_degrees", catch(|| r.magnetic_declination_degrees().val())),
  ("magnetic_declination_accuracy_degrees_raw", catch(|| r.magnetic_declination_accuracy_degrees_raw().val())),
  ("magnetic_declination_accuracy_degrees", catch(|| r.magnetic_declination_accuracy_degrees().val())),
] }
pub fn rec_NavSolution(r: &NavSolutionRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("ftow_ns", catch(|| r.ftow_ns().val())),
  ("week", catch(|| r.week().val())),
  ("fix_type_raw", catch(|| r.fix_type_raw().val())),
  ("fix_type", catch(|| r.fix_type().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("ecef_x_raw", catch(|| r.ecef_x_raw().val())),
  ("ecef_x", catch(|| r.ecef_x().val())),
  ("ecef_y_raw", catch(|| r.ecef_y_raw().val())),
  ("ecef_y", catch(|| r.ecef_y().val())),
  ("ecef_z_raw", catch(|| r.ecef_z_raw().val())),
  ("ecef_z", catch(|| r.ecef_z().val())),
  ("position_accuracy_estimate_raw", catch(|| r.position_accuracy_estimate_raw().val())),
  ("position_accuracy_estimate", catch(|| r.position_accuracy_estimate().val())),
  ("ecef_vx_raw", catch(|| r.ecef_vx_raw().val())),
  ("ecef_vx", catch(|| r.ecef_vx().val())),
  ("ecef_vy_raw", catch(|| r.ecef_vy_raw().val())),
  ("ecef_vy", catch(|| r.ecef_vy().val())),
  ("ecef_vz_raw", catch(|| r.ecef_vz_raw().val())),
  ("ecef_vz", catch(|| r.ecef_vz().val())),
  ("speed_accuracy_estimate_raw", catch(|| r.speed_accuracy_estimate_raw().val())),
  ("speed_accuracy_estimate", catch(|| r.speed_accuracy_estimate().val())),
  ("pdop_raw", catch(|| r.pdop_raw().val())),
  ("pdop", catch(|| r.pdop().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("num_sv", catch(|| r.num_sv().val())),
  ("reserved2", catch(|| r.reserved2().val())),
] }
pub fn rec_NavVelNed(r: &NavVelNedRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("vel_north_raw", catch(|| r.vel_north_raw().val())),
  ("vel_north", catch(|| r.vel_north().val())),
  ("vel_east_raw", catch(|| r.vel_east_raw().val())),
  ("vel_east", catch(|| r.vel_east().val())),
  ("vel_down_raw", catch(|| r.vel_down_raw().val())),
  ("vel_down", catch(|| r.vel_down().val())),
  ("speed_3d_raw", catch(|| r.speed_3d_raw().val())),
  ("speed_3d", catch(|| r.speed_3d().val())),
  ("ground_speed_raw", catch(|| r.ground_speed_raw().val())),
  ("ground_speed", catch(|| r.ground_speed().val())),
  ("heading_degrees_raw", catch(|| r.heading_degrees_raw().val())),
  ("heading_degrees", catch(|| r.heading_degrees().val())),
  ("speed_accuracy_estimate_raw", catch(|| r.speed_accuracy_estimate_raw().val())),
  ("speed_accuracy_estimate", catch(|| r.speed_accuracy_estimate().val())),
  ("course_heading_accuracy_estimate_raw", catch(|| r.course_heading_accuracy_estimate_raw().val())),
  ("course_heading_accuracy_estimate", catch(|| r.course_heading_accuracy_estimate().val())),
] }
pub fn rec_NavHpPosLlh(r: &NavHpPosLlhRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("itow", catch(|| r.itow().val())),
  ("lon_degrees_raw", catch(|| r.lon_degrees_raw().val())),
  ("lon_degrees", catch(|| r.lon_degrees().val())),
  ("lat_degrees_raw", catch(|| r.lat_degrees_raw().val())),
  ("lat_degrees", catch(|| r.lat_degrees().val())),
  ("height_meters_raw", catch(|| r.height_meters_raw().val())),
  ("height_meters", catch(|| r.height_meters().val())),
  ("height_msl_raw", catch(|| r.height_msl_raw().val())),
  ("height_msl", catch(|| r.height_msl().val())),
  ("lon_hp_degrees_raw", catch(|| r.lon_hp_degrees_raw().val())),
  ("lon_hp_degrees", catch(|| r.lon_hp_degrees().val())),
  ("lat_hp_degrees_raw", catch(|| r.lat_hp_degrees_raw().val())),
  ("lat_hp_degrees", catch(|| r.lat_hp_degrees().val())),
  ("height_hp_meters_raw", catch(|| r.height_hp_meters_raw().val())),
  ("height_hp_meters", catch(|| r.height_hp_meters().val())),
  ("height_hp_msl_raw", catch(|| r.height_hp_msl_raw().val())),
  ("height_hp_msl", catch(|| r.height_hp_msl().val())),
  ("horizontal_accuracy_raw", catch(|| r.horizontal_accuracy_raw().val())),
  ("horizontal_accuracy", catch(|| r.horizontal_accuracy().val())),
  ("vertical_accuracy_raw", catch(|| r.vertical_accuracy_raw().val())),
  ("vertical_accuracy", catch(|| r.vertical_accuracy().val())),
] }
pub fn rec_NavHpPosEcef(r: &NavHpPosEcefRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("itow", catch(|| r.itow().val())),
  ("ecef_x_cm_raw", catch(|| r.ecef_x_cm_raw().val())),
  ("ecef_x_cm", catch(|| r.ecef_x_cm().val())),
  ("ecef_y_cm_raw", catch(|| r.ecef_y_cm_raw().val())),
  ("ecef_y_cm", catch(|| r.ecef_y_cm().val())),
  ("ecef_z_cm_raw", catch(|| r.ecef_z_cm_raw().val())),
  ("ecef_z_cm", catch(|| r.ecef_z_cm().val())),
  ("ecef_x_hp_mm_raw", catch(|| r.ecef_x_hp_mm_raw().val())),
  ("ecef_x_hp_mm", catch(|| r.ecef_x_hp_mm().val())),
  ("ecef_y_hp_mm_raw", catch(|| r.ecef_y_hp_mm_raw().val())),
  ("ecef_y_hp_mm", catch(|| r.ecef_y_hp_mm().val())),
  ("ecef_z_hp_mm_raw", catch(|| r.ecef_z_hp_mm_raw().val())),
  ("ecef_z_hp_mm", catch(|| r.ecef_z_hp_mm().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("p_acc_raw", catch(|| r.p_acc_raw().val())),
  ("p_acc", catch(|| r.p_acc().val())),
] }
pub fn rec_NavTimeUTC(r: &NavTimeUTCRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("time_accuracy_estimate_ns", catch(|| r.time_accuracy_estimate_ns().val())),
  ("nanos", catch(|| r.nanos().val())),
  ("year", catch(|| r.year().val())),
  ("month", catch(|| r.month().val())),
  ("day", catch(|| r.day().val())),
  ("hour", catch(|| r.hour().val())),
  ("min", catch(|| r.min().val())),
  ("sec", catch(|| r.sec().val())),
  ("valid_raw", catch(|| r.valid_raw().val())),
  ("valid", catch(|| r.valid().val())),
] }
pub fn rec_NavTimeLs(r: &NavTimeLsRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("version", catch(|| r.version().val())),
  ("reserved_1", catch(|| r.reserved_1().val())),
  ("src_of_curr_ls", catch(|| r.src_of_curr_ls().val())),
  ("current_ls", catch(|| r.current_ls().val())),
  ("src_of_ls_change", catch(|| r.src_of_ls_change().val())),
  ("ls_change", catch(|| r.ls_change().val())),
  ("time_to_ls_event", catch(|| r.time_to_ls_event().val())),
  ("date_of_ls_gps_wn", catch(|| r.date_of_ls_gps_wn().val())),
  ("date_of_ls_gps_dn", catch(|| r.date_of_ls_gps_dn().val())),
  ("reserved_2", catch(|| r.reserved_2().val())),
  ("valid_raw", catch(|| r.valid_raw().val())),
  ("valid", catch(|| r.valid().val())),
] }
pub fn rec_NavSat(r: &NavSatRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("version", catch(|| r.version().val())),
  ("num_svs", catch(|| r.num_svs().val())),
  ("reserved", catch(|| r.reserved().val())),
  ("svs", catch(|| r.svs().val())),
] }
pub fn rec_NavEoe(r: &NavEoeRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
] }
pub fn rec_NavOdo(r: &NavOdoRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("reserved", catch(|| r.reserved().val())),
  ("itow", catch(|| r.itow().val())),
  ("distance", catch(|| r.distance().val())),
  ("total_distance", catch(|| r.total_distance().val())),
  ("distance_std", catch(|| r.distance_std().val())),
] }
pub fn rec_CfgOdo(r: &CfgOdoRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("reserved", catch(|| r.reserved().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("odo_cfg_raw", catch(|| r.odo_cfg_raw().val())),
  ("odo_cfg", catch(|| r.odo_cfg().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("cog_max_speed", catch(|| r.cog_max_speed().val())),
  ("cog_max_pos_acc", catch(|| r.cog_max_pos_acc().val())),
  ("reserved3", catch(|| r.reserved3().val())),
  ("vel_lp_gain", catch(|| r.vel_lp_gain().val())),
  ("cog_lp_gain", catch(|| r.cog_lp_gain().val())),
  ("reserved4", catch(|| r.reserved4().val())),
] }
pub fn rec_MgaAck(r: &MgaAckRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("ack_type", catch(|| r.ack_type().val())),
  ("version", catch(|| r.version().val())),
  ("info_code_raw", catch(|| r.info_code_raw().val())),
  ("info_code", catch(|| r.info_code().val())),
  ("msg_id", catch(|| r.msg_id().val())),
  ("msg_payload_start", catch(|| r.msg_payload_start().val())),
] }
pub fn rec_MgaGpsIono(r: &MgaGpsIonoRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("msg_type", catch(|| r.msg_type().val())),
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("alpha0_raw", catch(|| r.alpha0_raw().val())),
  ("alpha0", catch(|| r.alpha0().val())),
  ("alpha1_raw", catch(|| r.alpha1_raw().val())),
  ("alpha1", catch(|| r.alpha1().val())),
  ("alpha2_raw", catch(|| r.alpha2_raw().val())),
  ("alpha2", catch(|| r.alpha2().val())),
  ("alpha3_raw", catch(|| r.alpha3_raw().val())),
  ("alpha3", catch(|| r.alpha3().val())),
  ("beta0_raw", catch(|| r.beta0_raw().val())),
  ("beta0", catch(|| r.beta0().val())),
  ("beta1_raw", catch(|| r.beta1_raw().val())),
  ("beta1", catch(|| r.beta1().val())),
  ("beta2_raw", catch(|| r.beta2_raw().val())),
  ("beta2", catch(|| r.beta2().val())),
  ("beta3_raw", catch(|| r.beta3_raw().val())),
  ("beta3", catch(|| r.beta3().val())),
  ("reserved2", catch(|| r.reserved2().val())),
] }
pub fn rec_MgaGpsEph(r: &MgaGpsEphRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("msg_type", catch(|| r.msg_type().val())),
  ("version", catch(|| r.version().val())),
  ("sv_id", catch(|| r.sv_id().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("fit_interval", catch(|| r.fit_interval().val())),
  ("ura_index", catch(|| r.ura_index().val())),
  ("sv_health", catch(|| r.sv_health().val())),
  ("tgd", catch(|| r.tgd().val())),
  ("iodc", catch(|| r.iodc().val())),
  ("toc", catch(|| r.toc().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("af2", catch(|| r.af2().val())),
  ("af1", catch(|| r.af1().val())),
  ("af0", catch(|| r.af0().val())),
  ("crs", catch(|| r.crs().val())),
  ("delta_n", catch(|| r.delta_n().val())),
  ("m0", catch(|| r.m0().val())),
  ("cuc", catch(|| r.cuc().val())),
  ("cus", catch(|| r.cus().val())),
  ("e", catch(|| r.e().val())),
  ("sqrt_a", catch(|| r.sqrt_a().val())),
  ("toe", catch(|| r.toe().val())),
  ("cic", catch(|| r.cic().val())),
  ("omega0", catch(|| r.omega0().val())),
  ("cis", catch(|| r.cis().val())),
  ("crc", catch(|| r.crc().val())),
  ("i0", catch(|| r.i0().val())),
  ("omega", catch(|| r.omega().val())),
  ("omega_dot", catch(|| r.omega_dot().val())),
  ("idot", catch(|| r.idot().val())),
  ("reserved3", catch(|| r.reserved3().val())),
] }
pub fn rec_MgaGloEph(r: &MgaGloEphRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("msg_type", catch(|| r.msg_type().val())),
  ("version", catch(|| r.version().val())),
  ("sv_id", catch(|| r.sv_id().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("ft", catch(|| r.ft().val())),
  ("b", catch(|| r.b().val())),
  ("m", catch(|| r.m().val())),
  ("h", catch(|| r.h().val())),
  ("x", catch(|| r.x().val())),
  ("y", catch(|| r.y().val())),
  ("z", catch(|| r.z().val())),
  ("dx", catch(|| r.dx().val())),
  ("dy", catch(|| r.dy().val())),
  ("dz", catch(|| r.dz().val())),
  ("ddx", catch(|| r.ddx().val())),
  ("ddy", catch(|| r.ddy().val())),
  ("ddz", catch(|| r.ddz().val())),
  ("tb", catch(|| r.tb().val())),
  ("gamma", catch(|| r.gamma().val())),
  ("e", catch(|| r.e().val())),
  ("delta_tau", catch(|| r.delta_tau().val())),
  ("tau", catch(|| r.tau().val())),
  ("reserved2", catch(|| r.reserved2().val())),
] }
pub fn rec_AlpSrv(r: &AlpSrvRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("id_size", catch(|| r.id_size().val())),
  ("data_type", catch(|| r.data_type().val())),
  ("offset", catch(|| r.offset().val())),
  ("size", catch(|| r.size().val())),
  ("file_id", catch(|| r.file_id().val())),
  ("data_size", catch(|| r.data_size().val())),
  ("id1", catch(|| r.id1().val())),
  ("id2", catch(|| r.id2().val())),
  ("id3", catch(|| r.id3().val())),
] }
pub fn rec_AckAck(r: &AckAckRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("class", catch(|| r.class().val())),
  ("msg_id", catch(|| r.msg_id().val())),
] }
pub fn rec_AckNak(r: &AckNakRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("class", catch(|| r.class().val())),
  ("msg_id", catch(|| r.msg_id().val())),
] }
pub fn rec_CfgItfm(r: &CfgItfmRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("config_raw", catch(|| r.config_raw().val())),
  ("config", catch(|| r.config().val())),
  ("config2_raw", catch(|| r.config2_raw().val())),
  ("config2", catch(|| r.config2().val())),
] }
pub fn rec_CfgPrtI2c(r: &CfgPrtI2cRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("portid_raw", catch(|| r.portid_raw().val())),
  ("portid", catch(|| r.portid().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("tx_ready", catch(|| r.tx_ready().val())),
  ("mode", catch(|| r.mode().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("in_proto_mask_raw", catch(|| r.in_proto_mask_raw().val())),
  ("in_proto_mask", catch(|| r.in_proto_mask().val())),
  ("out_proto_mask_raw", catch(|| r.out_proto_mask_raw().val())),
  ("out_proto_mask", catch(|| r.out_proto_mask().val())),
  ("flags", catch(|| r.flags().val())),
  ("reserved3", catch(|| r.reserved3().val())),
] }
pub fn rec_CfgPrtSpi(r: &CfgPrtSpiRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("portid_raw", catch(|| r.portid_raw().val())),
  ("portid", catch(|| r.portid().val())),
  ("reserved0", catch(|| r.reserved0().val())),
  ("tx_ready", catch(|| r.tx_ready().val())),
  ("mode", catch(|| r.mode().val())),
  ("reserved3", catch(|| r.reserved3().val())),
  ("in_proto_mask_raw", catch(|| r.in_proto_mask_raw().val())),
  ("in_proto_mask", catch(|| r.in_proto_mask().val())),
  ("out_proto_mask_raw", catch(|| r.out_proto_mask_raw().val())),
  ("out_proto_mask", catch(|| r.out_proto_mask().val())),
  ("flags", catch(|| r.flags().val())),
  ("reserved5", catch(|| r.reserved5().val())),
] }
pub fn rec_CfgPrtUart(r: &CfgPrtUartRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("portid_raw", catch(|| r.portid_raw().val())),
  ("portid", catch(|| r.portid().val())),
  ("reserved0", catch(|| r.reserved0().val())),
  ("tx_ready", catch(|| r.tx_ready().val())),
  ("mode_raw", catch(|| r.mode_raw().val())),
  ("mode", catch(|| r.mode().val())),
  ("baud_rate", catch(|| r.baud_rate().val())),
  ("in_proto_mask_raw", catch(|| r.in_proto_mask_raw().val())),
  ("in_proto_mask", catch(|| r.in_proto_mask().val())),
  ("out_proto_mask_raw", catch(|| r.out_proto_mask_raw().val())),
  ("out_proto_mask", catch(|| r.out_proto_mask().val())),
  ("flags", catch(|| r.flags().val())),
  ("reserved5", catch(|| r.reserved5().val())),
] }
pub fn rec_CfgNav5(r: &CfgNav5Ref) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("mask_raw", catch(|| r.mask_raw().val())),
  ("mask", catch(|| r.mask().val())),
  ("dyn_model_raw", catch(|| r.dyn_model_raw().val())),
  ("dyn_model", catch(|| r.dyn_model().val())),
  ("fix_mode_raw", catch(|| r.fix_mode_raw().val())),
  ("fix_mode", catch(|| r.fix_mode().val())),
  ("fixed_alt_raw", catch(|| r.fixed_alt_raw().val())),
  ("fixed_alt", catch(|| r.fixed_alt().val())),
  ("fixed_alt_var_raw", catch(|| r.fixed_alt_var_raw().val())),
  ("fixed_alt_var", catch(|| r.fixed_alt_var().val())),
  ("min_elev_degrees", catch(|| r.min_elev_degrees().val())),
  ("dr_limit", catch(|| r.dr_limit().val())),
  ("pdop_raw", catch(|| r.pdop_raw().val())),
  ("pdop", catch(|| r.pdop().val())),
  ("tdop_raw", catch(|| r.tdop_raw().val())),
  ("tdop", catch(|| r.tdop().val())),
  ("pacc", catch(|| r.pacc().val())),
  ("tacc", catch(|| r.tacc().val())),
  ("static_hold_thresh_raw", catch(|| r.static_hold_thresh_raw().val())),
  ("static_hold_thresh", catch(|| r.static_hold_thresh().val())),
  ("dgps_time_out", catch(|| r.dgps_time_out().val())),
  ("cno_thresh_num_svs", catch(|| r.cno_thresh_num_svs().val())),
  ("cno_thresh", catch(|| r.cno_thresh().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("static_hold_max_dist", catch(|| r.static_hold_max_dist().val())),
  ("utc_standard_raw", catch(|| r.utc_standard_raw().val())),
  ("utc_standard", catch(|| r.utc_standard().val())),
  ("reserved2", catch(|| r.reserved2().val())),
] }
pub fn rec_CfgAnt(r: &CfgAntRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("pins", catch(|| r.pins().val())),
] }
pub fn rec_CfgTmode2(r: &CfgTmode2Ref) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("time_transfer_mode_raw", catch(|| r.time_transfer_mode_raw().val())),
  ("time_transfer_mode", catch(|| r.time_transfer_mode().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("ecef_x_or_lat_raw", catch(|| r.ecef_x_or_lat_raw().val())),
  ("ecef_x_or_lat", catch(|| r.ecef_x_or_lat().val())),
  ("ecef_y_or_lon_raw", catch(|| r.ecef_y_or_lon_raw().val())),
  ("ecef_y_or_lon", catch(|| r.ecef_y_or_lon().val())),
  ("ecef_z_or_alt_raw", catch(|| r.ecef_z_or_alt_raw().val())),
  ("ecef_z_or_alt", catch(|| r.ecef_z_or_alt().val())),
  ("fixed_pos_acc_raw", catch(|| r.fixed_pos_acc_raw().val())),
  ("fixed_pos_acc", catch(|| r.fixed_pos_acc().val())),
  ("survey_in_min_duration", catch(|| r.survey_in_min_duration().val())),
  ("survery_in_accur_limit_raw", catch(|| r.survery_in_accur_limit_raw().val())),
  ("survery_in_accur_limit", catch(|| r.survery_in_accur_limit().val())),
] }
pub fn rec_CfgTmode3(r: &CfgTmode3Ref) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("rcvr_mode_raw", catch(|| r.rcvr_mode_raw().val())),
  ("rcvr_mode", catch(|| r.rcvr_mode().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("ecef_x_or_lat_raw", catch(|| r.ecef_x_or_lat_raw().val())),
  ("ecef_x_or_lat", catch(|| r.ecef_x_or_lat().val())),
  ("ecef_y_or_lon_raw", catch(|| r.ecef_y_or_lon_raw().val())),
  ("ecef_y_or_lon", catch(|| r.ecef_y_or_lon().val())),
  ("ecef_z_or_alt_raw", catch(|| r.ecef_z_or_alt_raw().val())),
  ("ecef_z_or_alt", catch(|| r.ecef_z_or_alt().val())),
  ("ecef_x_or_lat_hp_raw", catch(|| r.ecef_x_or_lat_hp_raw().val())),
  ("ecef_x_or_lat_hp", catch(|| r.ecef_x_or_lat_hp().val())),
  ("ecef_y_or_lon_hp_raw", catch(|| r.ecef_y_or_lon_hp_raw().val())),
  ("ecef_y_or_lon_hp", catch(|| r.ecef_y_or_lon_hp().val())),
  ("ecef_z_or_alt_hp_raw", catch(|| r.ecef_z_or_alt_hp_raw().val())),
  ("ecef_z_or_alt_hp", catch(|| r.ecef_z_or_alt_hp().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("fixed_pos_acc_raw", catch(|| r.fixed_pos_acc_raw().val())),
  ("fixed_pos_acc", catch(|| r.fixed_pos_acc().val())),
  ("sv_in_min_duration", catch(|| r.sv_in_min_duration().val())),
  ("sv_in_accur_limit_raw", catch(|| r.sv_in_accur_limit_raw().val())),
  ("sv_in_accur_limit", catch(|| r.sv_in_accur_limit().val())),
  ("reserved3", catch(|| r.reserved3().val())),
] }
pub fn rec_CfgTp5(r: &CfgTp5Ref) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("tp_idx_raw", catch(|| r.tp_idx_raw().val())),
  ("tp_idx", catch(|| r.tp_idx().val())),
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("ant_cable_delay_raw", catch(|| r.ant_cable_delay_raw().val())),
  ("ant_cable_delay", catch(|| r.ant_cable_delay().val())),
  ("rf_group_delay_raw", catch(|| r.rf_group_delay_raw().val())),
  ("rf_group_delay", catch(|| r.rf_group_delay().val())),
  ("freq_period_raw", catch(|| r.freq_period_raw().val())),
  ("freq_period", catch(|| r.freq_period().val())),
  ("freq_period_lock_raw", catch(|| r.freq_period_lock_raw().val())),
  ("freq_period_lock", catch(|| r.freq_period_lock().val())),
  ("pulse_len_ratio_raw", catch(|| r.pulse_len_ratio_raw().val())),
  ("pulse_len_ratio", catch(|| r.pulse_len_ratio().val())),
  ("pulse_len_ratio_lock_raw", catch(|| r.pulse_len_ratio_lock_raw().val())),
  ("pulse_len_ratio_lock", catch(|| r.pulse_len_ratio_lock().val())),
  ("user_delay_raw", catch(|| r.user_delay_raw().val())),
  ("user_delay", catch(|| r.user_delay().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
] }
pub fn rec_InfError(r: &InfErrorRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("message", catch(|| r.message().val())),
] }
pub fn rec_InfWarning(r: &InfWarningRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("message", catch(|| r.message().val())),
] }
pub fn rec_InfNotice(r: &InfNoticeRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("message", catch(|| r.message().val())),
] }
pub fn rec_InfTest(r: &InfTestRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("message", catch(|| r.message().val())),
] }
pub fn rec_InfDebug(r: &InfDebugRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("message", catch(|| r.message().val())),
] }
pub fn rec_RxmRawx(r: &RxmRawxRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("rcv_tow", catch(|| r.rcv_tow().val())),
  ("week", catch(|| r.week().val())),
  ("leap_s", catch(|| r.leap_s().val())),
  ("num_meas", catch(|| r.num_meas().val())),
  ("rec_stat_raw", catch(|| r.rec_stat_raw().val())),
  ("rec_stat", catch(|| r.rec_stat().val())),
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("measurements", catch(|| r.measurements().val())),
] }
pub fn rec_TimTp(r: &TimTpRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("tow_ms", catch(|| r.tow_ms().val())),
  ("tow_sub_ms", catch(|| r.tow_sub_ms().val())),
  ("q_err", catch(|| r.q_err().val())),
  ("week", catch(|| r.week().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("ref_info_raw", catch(|| r.ref_info_raw().val())),
  ("ref_info", catch(|| r.ref_info().val())),
] }
pub fn rec_TimTm2(r: &TimTm2Ref) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("ch", catch(|| r.ch().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("count", catch(|| r.count().val())),
  ("wn_r", catch(|| r.wn_r().val())),
  ("wn_f", catch(|| r.wn_f().val())),
  ("tow_ms_r", catch(|| r.tow_ms_r().val())),
  ("tow_sub_ms_r", catch(|| r.tow_sub_ms_r().val())),
  ("tow_ms_f", catch(|| r.tow_ms_f().val())),
  ("tow_sub_ms_f", catch(|| r.tow_sub_ms_f().val())),
  ("acc_est", catch(|| r.acc_est().val())),
] }
pub fn rec_MonVer(r: &MonVerRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("software_version_raw", catch(|| r.software_version_raw().val())),
  ("software_version", catch(|| r.software_version().val())),
  ("hardware_version_raw", catch(|| r.hardware_version_raw().val())),
  ("hardware_version", catch(|| r.hardware_version().val())),
  ("extension", catch(|| r.extension().val())),
] }
pub fn rec_MonGnss(r: &MonGnssRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("supported_raw", catch(|| r.supported_raw().val())),
  ("supported", catch(|| r.supported().val())),
  ("default_raw", catch(|| r.default_raw().val())),
  ("default", catch(|| r.default().val())),
  ("enabled_raw", catch(|| r.enabled_raw().val())),
  ("enabled", catch(|| r.enabled().val())),
  ("simultaneous", catch(|| r.simultaneous().val())),
  ("reserved1", catch(|| r.reserved1().val())),
] }
pub fn rec_MonHw(r: &MonHwRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("pin_sel", catch(|| r.pin_sel().val())),
  ("pin_bank", catch(|| r.pin_bank().val())),
  ("pin_dir", catch(|| r.pin_dir().val())),
  ("pin_val", catch(|| r.pin_val().val())),
  ("noise_per_ms", catch(|| r.noise_per_ms().val())),
  ("agc_cnt", catch(|| r.agc_cnt().val())),
  ("a_status_raw", catch(|| r.a_status_raw().val())),
  ("a_status", catch(|| r.a_status().val())),
  ("a_power_raw", catch(|| r.a_power_raw().val())),
  ("a_power", catch(|| r.a_power().val())),
  ("flags", catch(|| r.flags().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("used_mask", catch(|| r.used_mask().val())),
  ("vp", catch(|| r.vp().val())),
  ("jam_ind", catch(|| r.jam_ind().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("pin_irq", catch(|| r.pin_irq().val())),
  ("pull_h", catch(|| r.pull_h().val())),
  ("pull_l", catch(|| r.pull_l().val())),
] }
pub fn rec_RxmRtcm(r: &RxmRtcmRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("flags", catch(|| r.flags().val())),
  ("sub_type", catch(|| r.sub_type().val())),
  ("ref_station", catch(|| r.ref_station().val())),
  ("msg_type", catch(|| r.msg_type().val())),
] }
pub fn rec_EsfMeas(r: &EsfMeasRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("time_tag", catch(|| r.time_tag().val())),
  ("flags", catch(|| r.flags().val())),
  ("id", catch(|| r.id().val())),
  ("data", catch(|| r.data().val())),
  ("calib_tag", catch(|| r.calib_tag().val())),
] }
pub fn rec_EsfIns(r: &EsfInsRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("bit_field_raw", catch(|| r.bit_field_raw().val())),
  ("bit_field", catch(|| r.bit_field().val())),
  ("reserved", catch(|| r.reserved().val())),
  ("itow", catch(|| r.itow().val())),
  ("x_angular_rate_raw", catch(|| r.x_angular_rate_raw().val())),
  ("x_angular_rate", catch(|| r.x_angular_rate().val())),
  ("y_angular_rate_raw", catch(|| r.y_angular_rate_raw().val())),
  ("y_angular_rate", catch(|| r.y_angular_rate().val())),
  ("z_angular_rate_raw", catch(|| r.z_angular_rate_raw().val())),
  ("z_angular_rate", catch(|| r.z_angular_rate().val())),
  ("x_acceleration_raw", catch(|| r.x_acceleration_raw().val())),
  ("x_acceleration", catch(|| r.x_acceleration().val())),
  ("y_acceleration_raw", catch(|| r.y_acceleration_raw().val())),
  ("y_acceleration", catch(|| r.y_acceleration().val())),
  ("z_acceleration_raw", catch(|| r.z_acceleration_raw().val())),
  ("z_acceleration", catch(|| r.z_acceleration().val())),
] }
pub fn rec_HnrAtt(r: &HnrAttRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("vehicle_roll_raw", catch(|| r.vehicle_roll_raw().val())),
  ("vehicle_roll", catch(|| r.vehicle_roll().val())),
  ("vehicle_pitch_raw", catch(|| r.vehicle_pitch_raw().val())),
  ("vehicle_pitch", catch(|| r.vehicle_pitch().val())),
  ("vehicle_heading_raw", catch(|| r.vehicle_heading_raw().val())),
  ("vehicle_heading", catch(|| r.vehicle_heading().val())),
  ("vehicle_roll_accuracy_raw", catch(|| r.vehicle_roll_accuracy_raw().val())),
  ("vehicle_roll_accuracy", catch(|| r.vehicle_roll_accuracy().val())),
  ("vehicle_pitch_accuracy_raw", catch(|| r.vehicle_pitch_accuracy_raw().val())),
  ("vehicle_pitch_accuracy", catch(|| r.vehicle_pitch_accuracy().val())),
  ("vehicle_heading_accuracy_raw", catch(|| r.vehicle_heading_accuracy_raw().val())),
  ("vehicle_heading_accuracy", catch(|| r.vehicle_heading_accuracy().val())),
] }
pub fn rec_HnrIns(r: &HnrInsRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("bit_field_raw", catch(|| r.bit_field_raw().val())),
  ("bit_field", catch(|| r.bit_field().val())),
  ("reserved", catch(|| r.reserved().val())),
  ("itow", catch(|| r.itow().val())),
  ("x_angular_rate_raw", catch(|| r.x_angular_rate_raw().val())),
  ("x_angular_rate", catch(|| r.x_angular_rate().val())),
  ("y_angular_rate_raw", catch(|| r.y_angular_rate_raw().val())),
  ("y_angular_rate", catch(|| r.y_angular_rate().val())),
  ("z_angular_rate_raw", catch(|| r.z_angular_rate_raw().val())),
  ("z_angular_rate", catch(|| r.z_angular_rate().val())),
  ("x_acceleration_raw", catch(|| r.x_acceleration_raw().val())),
  ("x_acceleration", catch(|| r.x_acceleration().val())),
  ("y_acceleration_raw", catch(|| r.y_acceleration_raw().val())),
  ("y_acceleration", catch(|| r.y_acceleration().val())),
  ("z_acceleration_raw", catch(|| r.z_acceleration_raw().val())),
  ("z_acceleration", catch(|| r.z_acceleration().val())),
] }
pub fn rec_HnrPvt(r: &HnrPvtRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("year", catch(|| r.year().val())),
  ("month", catch(|| r.month().val())),
  ("day", catch(|| r.day().val())),
  ("hour", catch(|| r.hour().val())),
  ("min", catch(|| r.min().val())),
  ("sec", catch(|| r.sec().val())),
  ("valid_raw", catch(|| r.valid_raw().val())),
  ("valid", catch(|| r.valid().val())),
  ("nano", catch(|| r.nano().val())),
  ("gps_fix_raw", catch(|| r.gps_fix_raw().val())),
  ("gps_fix", catch(|| r.gps_fix().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("longitude_raw", catch(|| r.longitude_raw().val())),
  ("longitude", catch(|| r.longitude().val())),
  ("latitude_raw", catch(|| r.latitude_raw().val())),
  ("latitude", catch(|| r.latitude().val())),
  ("height_above_ellipsoid_raw", catch(|| r.height_above_ellipsoid_raw().val())),
  ("height_above_ellipsoid", catch(|| r.height_above_ellipsoid().val())),
  ("height_msl_raw", catch(|| r.height_msl_raw().val())),
  ("height_msl", catch(|| r.height_msl().val())),
  ("ground_speed_2d_raw", catch(|| r.ground_speed_2d_raw().val())),
  ("ground_speed_2d", catch(|| r.ground_speed_2d().val())),
  ("speed_3d_raw", catch(|| r.speed_3d_raw().val())),
  ("speed_3d", catch(|| r.speed_3d().val())),
  ("heading_motion_raw", catch(|| r.heading_motion_raw().val())),
  ("heading_motion", catch(|| r.heading_motion().val())),
  ("heading_vehicle_raw", catch(|| r.heading_vehicle_raw().val())),
  ("heading_vehicle", catch(|| r.heading_vehicle().val())),
  ("h_acc", catch(|| r.h_acc().val())),
  ("v_acc", catch(|| r.v_acc().val())),
  ("s_acc", catch(|| r.s_acc().val())),
  ("heading_accurracy_raw", catch(|| r.heading_accurracy_raw().val())),
  ("heading_accurracy", catch(|| r.heading_accurracy().val())),
  ("reserved2", catch(|| r.reserved2().val())),
] }
pub fn rec_NavAtt(r: &NavAttRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("vehicle_roll_raw", catch(|| r.vehicle_roll_raw().val())),
  ("vehicle_roll", catch(|| r.vehicle_roll().val())),
  ("vehicle_pitch_raw", catch(|| r.vehicle_pitch_raw().val())),
  ("vehicle_pitch", catch(|| r.vehicle_pitch().val())),
  ("vehicle_heading_raw", catch(|| r.vehicle_heading_raw().val())),
  ("vehicle_heading", catch(|| r.vehicle_heading().val())),
  ("vehicle_roll_accuracy_raw", catch(|| r.vehicle_roll_accuracy_raw().val())),
  ("vehicle_roll_accuracy", catch(|| r.vehicle_roll_accuracy().val())),
  ("vehicle_pitch_accuracy_raw", catch(|| r.vehicle_pitch_accuracy_raw().val())),
  ("vehicle_pitch_accuracy", catch(|| r.vehicle_pitch_accuracy().val())),
  ("vehicle_heading_accuracy_raw", catch(|| r.vehicle_heading_accuracy_raw().val())),
  ("vehicle_heading_accuracy", catch(|| r.vehicle_heading_accuracy().val())),
] }
pub fn rec_NavClock(r: &NavClockRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("clk_b", catch(|| r.clk_b().val())),
  ("clk_d", catch(|| r.clk_d().val())),
  ("t_acc", catch(|| r.t_acc().val())),
  ("f_acc", catch(|| r.f_acc().val())),
] }
pub fn rec_NavVelECEF(r: &NavVelECEFRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("itow", catch(|| r.itow().val())),
  ("ecef_vx", catch(|| r.ecef_vx().val())),
  ("ecef_vy", catch(|| r.ecef_vy().val())),
  ("ecef_vz", catch(|| r.ecef_vz().val())),
  ("s_acc", catch(|| r.s_acc().val())),
] }
pub fn rec_MgaGpsEPH(r: &MgaGpsEPHRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("msg_type", catch(|| r.msg_type().val())),
  ("version", catch(|| r.version().val())),
  ("sv_id", catch(|| r.sv_id().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("fit_interval", catch(|| r.fit_interval().val())),
  ("ura_index", catch(|| r.ura_index().val())),
  ("sv_health", catch(|| r.sv_health().val())),
  ("tgd_raw", catch(|| r.tgd_raw().val())),
  ("tgd", catch(|| r.tgd().val())),
  ("iodc", catch(|| r.iodc().val())),
  ("toc_raw", catch(|| r.toc_raw().val())),
  ("toc", catch(|| r.toc().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("af2_raw", catch(|| r.af2_raw().val())),
  ("af2", catch(|| r.af2().val())),
  ("afl_raw", catch(|| r.afl_raw().val())),
  ("afl", catch(|| r.afl().val())),
  ("af0_raw", catch(|| r.af0_raw().val())),
  ("af0", catch(|| r.af0().val())),
  ("crs_raw", catch(|| r.crs_raw().val())),
  ("crs", catch(|| r.crs().val())),
  ("delta_n_raw", catch(|| r.delta_n_raw().val())),
  ("delta_n", catch(|| r.delta_n().val())),
  ("m0_raw", catch(|| r.m0_raw().val())),
  ("m0", catch(|| r.m0().val())),
  ("cuc_raw", catch(|| r.cuc_raw().val())),
  ("cuc", catch(|| r.cuc().val())),
  ("cus_raw", catch(|| r.cus_raw().val())),
  ("cus", catch(|| r.cus().val())),
  ("e_raw", catch(|| r.e_raw().val())),
  ("e", catch(|| r.e().val())),
  ("sqrt_a_raw", catch(|| r.sqrt_a_raw().val())),
  ("sqrt_a", catch(|| r.sqrt_a().val())),
  ("toe_raw", catch(|| r.toe_raw().val())),
  ("toe", catch(|| r.toe().val())),
  ("cic_raw", catch(|| r.cic_raw().val())),
  ("cic", catch(|| r.cic().val())),
  ("omega0_raw", catch(|| r.omega0_raw().val())),
  ("omega0", catch(|| r.omega0().val())),
  ("cis_raw", catch(|| r.cis_raw().val())),
  ("cis", catch(|| r.cis().val())),
  ("crc_raw", catch(|| r.crc_raw().val())),
  ("crc", catch(|| r.crc().val())),
  ("i0_raw", catch(|| r.i0_raw().val())),
  ("i0", catch(|| r.i0().val())),
  ("omega_raw", catch(|| r.omega_raw().val())),
  ("omega", catch(|| r.omega().val())),
  ("omega_dot_raw", catch(|| r.omega_dot_raw().val())),
  ("omega_dot", catch(|| r.omega_dot().val())),
  ("idot_raw", catch(|| r.idot_raw().val())),
  ("idot", catch(|| r.idot().val())),
  ("reserved3", catch(|| r.reserved3().val())),
] }
pub fn rec_RxmSfrbx(r: &RxmSfrbxRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("gnss_id", catch(|| r.gnss_id().val())),
  ("sv_id", catch(|| r.sv_id().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("freq_id", catch(|| r.freq_id().val())),
  ("num_words", catch(|| r.num_words().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("version", catch(|| r.version().val())),
  ("reserved3", catch(|| r.reserved3().val())),
  ("dwrd", catch(|| r.dwrd().val())),
] }
pub fn rec_EsfRaw(r: &EsfRawRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("msss", catch(|| r.msss().val())),
  ("data", catch(|| r.data().val())),
] }
pub fn rec_TimSvin(r: &TimSvinRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("dur", catch(|| r.dur().val())),
  ("mean_x", catch(|| r.mean_x().val())),
  ("mean_y", catch(|| r.mean_y().val())),
  ("mean_z", catch(|| r.mean_z().val())),
  ("mean_v", catch(|| r.mean_v().val())),
  ("obs", catch(|| r.obs().val())),
  ("valid", catch(|| r.valid().val())),
  ("active", catch(|| r.active().val())),
  ("reserved", catch(|| r.reserved().val())),
] }
pub fn rec_SecUniqId(r: &SecUniqIdRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("version", catch(|| r.version().val())),
  ("reserved1", catch(|| r.reserved1().val())),
  ("unique_id", catch(|| r.unique_id().val())),
] }
pub fn rec_NavSatSvInfo(r: &NavSatSvInfoRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("gnss_id", catch(|| r.gnss_id().val())),
  ("sv_id", catch(|| r.sv_id().val())),
  ("cno", catch(|| r.cno().val())),
  ("elev", catch(|| r.elev().val())),
  ("azim", catch(|| r.azim().val())),
  ("pr_res", catch(|| r.pr_res().val())),
  ("flags_raw", catch(|| r.flags_raw().val())),
  ("flags", catch(|| r.flags().val())),
] }
pub fn rec_RxmRawxInfo(r: &RxmRawxInfoRef) -> Vec<(&'static str, Thunk)> { let _ = r; vec![
  ("pr_mes", catch(|| r.pr_mes().val())),
  ("cp_mes", catch(|| r.cp_mes().val())),
  ("do_mes", catch(|| r.do_mes().val())),
  ("gnss_id", catch(|| r.gnss_id().val())),
  ("sv_id", catch(|| r.sv_id().val())),
  ("reserved2", catch(|| r.reserved2().val())),
  ("freq_id", catch(|| r.freq_id().val())),
  ("lock_time", catch(|| r.lock_time().val())),
  ("cno", catch(|| r.cno().val())),
  ("pr_stdev_raw", catch(|| r.pr_stdev_raw().val())),
  ("pr_stdev", catch(|| r.pr_stdev().val())),
  ("cp_stdev_raw", catch(|| r.cp_stdev_raw().val())),
  ("cp_stdev", catch(|| r.cp_stdev().val())),
  ("do_stdev_raw", catch(|| r.do_stdev_raw().val())),
  ("do_stdev", catch(|| r.do_stdev().val())),
  ("trk_stat_raw", catch(|| r.trk_stat_raw().val())),
  ("trk_stat", catch(|| r.trk_stat().val())),
  ("reserved3", catch(|| r.reserved3().val())),
] }
pub fn fields_of(p: &PacketRef) -> Option<Vec<(&'static str, Thunk)>> { match p {
  PacketRef::NavPosLlh(r) => Some(rec_NavPosLlh(r)),
  PacketRef::NavStatus(r) => Some(rec_NavStatus(r)),
  PacketRef::NavDop(r) => Some(rec_NavDop(r)),
  PacketRef::NavPvt(r) => Some(rec_NavPvt(r)),
  PacketRef::NavSolution(r) => Some(rec_NavSolution(r)),
  PacketRef::NavVelNed(r) => Some(rec_NavVelNed(r)),
  PacketRef::NavHpPosLlh(r) => Some(rec_NavHpPosLlh(r)),
  PacketRef::NavHpPosEcef(r) => Some(rec_NavHpPosEcef(r)),
  PacketRef::NavTimeUTC(r) => Some(rec_NavTimeUTC(r)),
  PacketRef::NavTimeLs(r) => Some(rec_NavTimeLs(r)),
  PacketRef::NavSat(r) => Some(rec_NavSat(r)),
  PacketRef::NavEoe(r) => Some(rec_NavEoe(r)),
  PacketRef::NavOdo(r) => Some(rec_NavOdo(r)),
  PacketRef::CfgOdo(r) => Some(rec_CfgOdo(r)),
  PacketRef::MgaAck(r) => Some(rec_MgaAck(r)),
  PacketRef::MgaGpsIono(r) => Some(rec_MgaGpsIono(r)),
  PacketRef::MgaGpsEph(r) => Some(rec_MgaGpsEph(r)),
  PacketRef::MgaGloEph(r) => Some(rec_MgaGloEph(r)),
  PacketRef::AlpSrv(r) => Some(rec_AlpSrv(r)),
  PacketRef::AckAck(r) => Some(rec_AckAck(r)),
  PacketRef::AckNak(r) => Some(rec_AckNak(r)),
  PacketRef::CfgItfm(r) => Some(rec_CfgItfm(r)),
  PacketRef::CfgPrtI2c(r) => Some(rec_CfgPrtI2c(r)),
  PacketRef::CfgPrtSpi(r) => Some(rec_CfgPrtSpi(r)),
  PacketRef::CfgPrtUart(r) => Some(rec_CfgPrtUart(r)),
  PacketRef::CfgNav5(r) => Some(rec_CfgNav5(r)),
  PacketRef::CfgAnt(r) => Some(rec_CfgAnt(r)),
  PacketRef::CfgTmode2(r) => Some(rec_CfgTmode2(r)),
  PacketRef::CfgTmode3(r) => Some(rec_CfgTmode3(r)),
  PacketRef::CfgTp5(r) => Some(rec_CfgTp5(r)),
  PacketRef::InfError(r) => Some(rec_InfError(r)),
  PacketRef::InfWarning(r) => Some(rec_InfWarning(r)),
  PacketRef::InfNotice(r) => Some(rec_InfNotice(r)),
  PacketRef::InfTest(r) => Some(rec_InfTest(r)),
  PacketRef::InfDebug(r) => Some(rec_InfDebug(r)),
  PacketRef::RxmRawx(r) => Some(rec_RxmRawx(r)),
  PacketRef::TimTp(r) => Some(rec_TimTp(r)),
  PacketRef::TimTm2(r) => Some(rec_TimTm2(r)),
  PacketRef::MonVer(r) => Some(rec_MonVer(r)),
  PacketRef::MonGnss(r) => Some(rec_MonGnss(r)),
  PacketRef::MonHw(r) => Some(rec_MonHw(r)),
  PacketRef::RxmRtcm(r) => Some(rec_RxmRtcm(r)),
  PacketRef::EsfMeas(r) => Some(rec_EsfMeas(r)),
  PacketRef::EsfIns(r) => Some(rec_EsfIns(r)),
  PacketRef::HnrAtt(r) => Some(rec_HnrAtt(r)),
  PacketRef::HnrIns(r) => Some(rec_HnrIns(r)),
  PacketRef::HnrPvt(r) => Some(rec_HnrPvt(r)),
  PacketRef::NavAtt(r) => Some(rec_NavAtt(r)),
  PacketRef::NavClock(r) => Some(rec_NavClock(r)),
  PacketRef::NavVelECEF(r) => Some(rec_NavVelECEF(r)),
  PacketRef::MgaGpsEPH(r) => Some(rec_MgaGpsEPH(r)),
  PacketRef::RxmSfrbx(r) => Some(rec_RxmSfrbx(r)),
  PacketRef::EsfRaw(r) => Some(rec_EsfRaw(r)),
  PacketRef::TimSvin(r) => Some(rec_TimSvin(r)),
  PacketRef::SecUniqId(r) => Some(rec_SecUniqId(r)),
  PacketRef::Unknown(_) => None, _ => None } }
pub fn raw_of<'a>(p: &'a PacketRef) -> (&'static str, &'a [u8]) { match p {
  PacketRef::NavPosLlh(r) => ("NavPosLlh", r.as_bytes()),
  PacketRef::NavStatus(r) => ("NavStatus", r.as_bytes()),
  PacketRef::NavDop(r) => ("NavDop", r.as_bytes()),
  PacketRef::NavPvt(r) => ("NavPvt", r.as_bytes()),
  PacketRef::NavSolution(r) => ("NavSolution", r.as_bytes()),
  PacketRef::NavVelNed(r) => ("NavVelNed", r.as_bytes()),
  PacketRef::NavHpPosLlh(r) => ("NavHpPosLlh", r.as_bytes()),
  PacketRef::NavHpPosEcef(r) => ("NavHpPosEcef", r.as_bytes()),
  PacketRef::NavTimeUTC(r) => ("NavTimeUTC", r.as_bytes()),
  PacketRef::NavTimeLs(r) => ("NavTimeLs", r.as_bytes()),
  PacketRef::NavSat(r) => ("NavSat", r.as_bytes()),
  PacketRef::NavEoe(r) => ("NavEoe", r.as_bytes()),
  PacketRef::NavOdo(r) => ("NavOdo", r.as_bytes()),
  PacketRef::CfgOdo(r) => ("CfgOdo", r.as_bytes()),
  PacketRef::MgaAck(r) => ("MgaAck", r.as_bytes()),
  PacketRef::MgaGpsIono(r) => ("MgaGpsIono", r.as_bytes()),
  PacketRef::MgaGpsEph(r) => ("MgaGpsEph", r.as_bytes()),
  PacketRef::MgaGloEph(r) => ("MgaGloEph", r.as_bytes()),
  PacketRef::AlpSrv(r) => ("AlpSrv", r.as_bytes()),
  PacketRef::AckAck(r) => ("AckAck", r.as_bytes()),
  PacketRef::AckNak(r) => ("AckNak", r.as_bytes()),
  PacketRef::CfgItfm(r) => ("CfgItfm", r.as_bytes()),
  PacketRef::CfgPrtI2c(r) => ("CfgPrtI2c", r.as_bytes()),
  PacketRef::CfgPrtSpi(r) => ("CfgPrtSpi", r.as_bytes()),
  PacketRef::CfgPrtUart(r) => ("CfgPrtUart", r.as_bytes()),
  PacketRef::CfgNav5(r) => ("CfgNav5", r.as_bytes()),
  PacketRef::CfgAnt(r) => ("CfgAnt", r.as_bytes()),
  PacketRef::CfgTmode2(r) => ("CfgTmode2", r.as_bytes()),
  PacketRef::CfgTmode3(r) => ("CfgTmode3", r.as_bytes()),
  PacketRef::CfgTp5(r) => ("CfgTp5", r.as_bytes()),
  PacketRef::InfError(r) => ("InfError", r.as_bytes()),
  PacketRef::InfWarning(r) => ("InfWarning", r.as_bytes()),
  PacketRef::InfNotice(r) => ("InfNotice", r.as_bytes()),
  PacketRef::InfTest(r) => ("InfTest", r.as_bytes()),
  PacketRef::InfDebug(r) => ("InfDebug", r.as_bytes()),
  PacketRef::RxmRawx(r) => ("RxmRawx", r.as_bytes()),
  PacketRef::TimTp(r) => ("TimTp", r.as_bytes()),
  PacketRef::TimTm2(r) => ("TimTm2", r.as_bytes()),
  PacketRef::MonVer(r) => ("MonVer", r.as_bytes()),
  PacketRef::MonGnss(r) => ("MonGnss", r.as_bytes()),
  PacketRef::MonHw(r) => ("MonHw", r.as_bytes()),
  PacketRef::RxmRtcm(r) => ("RxmRtcm", r.as_bytes()),
  PacketRef::EsfMeas(r) => ("EsfMeas", r.as_bytes()),
  PacketRef::EsfIns(r) => ("EsfIns", r.as_bytes()),
  PacketRef::HnrAtt(r) => ("HnrAtt", r.as_bytes()),
  PacketRef::HnrIns(r) => ("HnrIns", r.as_bytes()),
  PacketRef::HnrPvt(r) => ("HnrPvt", r.as_bytes()),
  PacketRef::NavAtt(r) => ("NavAtt", r.as_bytes()),
  PacketRef::NavClock(r) => ("NavClock", r.as_bytes()),
  PacketRef::NavVelECEF(r) => ("NavVelECEF", r.as_bytes()),
  PacketRef::MgaGpsEPH(r) => ("MgaGpsEPH", r.as_bytes()),
  PacketRef::RxmSfrbx(r) => ("RxmSfrbx", r.as_bytes()),
  PacketRef::EsfRaw(r) => ("EsfRaw", r.as_bytes()),
  PacketRef::TimSvin(r) => ("TimSvin", r.as_bytes()),
  PacketRef::SecUniqId(r) => ("SecUniqId", r.as_bytes()),
  PacketRef::Unknown(u) => ("Unknown", u.payload), _ => ("?", &[]) } }
struct D<'a>(&'a dyn Fn(&mut core::fmt::Formatter<'_>) -> core::fmt::Result);
impl core::fmt::Debug for D<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { (self.0)(f) } }
pub fn debug_of(p: &PacketRef, alt: bool) -> Option<String> { Some(match p {
  PacketRef::NavPosLlh(r) => { let w = D(&|f| f.debug_struct("NavPosLlh").field("itow", &r.itow()).field("lon", &r.lon_degrees()).field("lat", &r.lat_degrees()).field("height_meters", &r.height_meters()).field("height_msl", &r.height_msl()).field("h_ack", &r.h_ack()).field("v_acc", &r.v_acc()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavStatus(r) => { let w = D(&|f| f.debug_struct("NavStatus").field("itow", &r.itow()).field("fix_type", &r.fix_type()).field("flags", &r.flags()).field("fix_stat", &r.fix_stat()).field("flags2", &r.flags2()).field("time_to_first_fix", &r.time_to_first_fix()).field("uptime_ms", &r.uptime_ms()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavDop(r) => { let w = D(&|f| f.debug_struct("NavDop").field("itow", &r.itow()).field("geometric_dop", &r.geometric_dop()).field("position_dop", &r.position_dop()).field("time_dop", &r.time_dop()).field("vertical_dop", &r.vertical_dop()).field("horizontal_dop", &r.horizontal_dop()).field("northing_dop", &r.northing_dop()).field("easting_dop", &r.easting_dop()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavPvt(r) => { let w = D(&|f| f.debug_struct("NavPvt").field("itow", &r.itow()).field("year", &r.year()).field("month", &r.month()).field("day", &r.day()).field("hour", &r.hour()).field("min", &r.min()).field("sec", &r.sec()).field("valid", &r.valid()).field("time_accuracy", &r.time_accuracy()).field("nanosecond", &r.nanosecond()).field("fix_type", &r.fix_type()).field("flags", &r.flags()).field("flags2", &r.flags2()).field("num_satellites", &r.num_satellites()).field("lon", &r.lon_degrees()).field("lat", &r.lat_degrees()).field("height_meters", &r.height_meters()).field("height_msl", &r.height_msl()).field("horiz_accuracy", &r.horiz_accuracy()).field("vert_accuracy", &r.vert_accuracy()).field("vel_north", &r.vel_north()).field("vel_east", &r.vel_east()).field("vel_down", &r.vel_down()).field("ground_speed", &r.ground_speed()).field("heading", &r.heading_degrees()).field("speed_accuracy_estimate", &r.speed_accuracy_estimate()).field("heading_accuracy_estimate", &r.heading_accuracy_estimate()).field("pdop", &r.pdop()).field("reserved1", &r.reserved1()).field("heading_of_vehicle", &r.heading_of_vehicle_degrees()).field("magnetic_declination", &r.magnetic_declination_degrees()).field("magnetic_declination_accuracy", &r.magnetic_declination_accuracy_degrees()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavSolution(r) => { let w = D(&|f| f.debug_struct("NavSolution").field("itow", &r.itow()).field("ftow_ns", &r.ftow_ns()).field("week", &r.week()).field("fix_type", &r.fix_type()).field("flags", &r.flags()).field("ecef_x", &r.ecef_x()).field("ecef_y", &r.ecef_y()).field("ecef_z", &r.ecef_z()).field("position_accuracy_estimate", &r.position_accuracy_estimate()).field("ecef_vx", &r.ecef_vx()).field("ecef_vy", &r.ecef_vy()).field("ecef_vz", &r.ecef_vz()).field("speed_accuracy_estimate", &r.speed_accuracy_estimate()).field("pdop", &r.pdop()).field("reserved1", &r.reserved1()).field("num_sv", &r.num_sv()).field("reserved2", &r.reserved2()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavVelNed(r) => { let w = D(&|f| f.debug_struct("NavVelNed").field("itow", &r.itow()).field("vel_north", &r.vel_north()).field("vel_east", &r.vel_east()).field("vel_down", &r.vel_down()).field("speed_3d", &r.speed_3d()).field("ground_speed", &r.ground_speed()).field("heading", &r.heading_degrees()).field("speed_accuracy_estimate", &r.speed_accuracy_estimate()).field("course_heading_accuracy_estimate", &r.course_heading_accuracy_estimate()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavHpPosLlh(r) => { let w = D(&|f| f.debug_struct("NavHpPosLlh").field("version", &r.version()).field("reserved1", &r.reserved1()).field("itow", &r.itow()).field("lon", &r.lon_degrees()).field("lat", &r.lat_degrees()).field("height_meters", &r.height_meters()).field("height_msl", &r.height_msl()).field("lon_hp", &r.lon_hp_degrees()).field("lat_hp", &r.lat_hp_degrees()).field("height_hp_meters", &r.height_hp_meters()).field("height_hp_msl", &r.height_hp_msl()).field("horizontal_accuracy", &r.horizontal_accuracy()).field("vertical_accuracy", &r.vertical_accuracy()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavHpPosEcef(r) => { let w = D(&|f| f.debug_struct("NavHpPosEcef").field("version", &r.version()).field("reserved1", &r.reserved1()).field("itow", &r.itow()).field("ecef_x", &r.ecef_x_cm()).field("ecef_y", &r.ecef_y_cm()).field("ecef_z", &r.ecef_z_cm()).field("ecef_x_hp", &r.ecef_x_hp_mm()).field("ecef_y_hp", &r.ecef_y_hp_mm()).field("ecef_z_hp", &r.ecef_z_hp_mm()).field("flags", &r.flags()).field("p_acc", &r.p_acc()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavTimeUTC(r) => { let w = D(&|f| f.debug_struct("NavTimeUTC").field("itow", &r.itow()).field("time_accuracy_estimate_ns", &r.time_accuracy_estimate_ns()).field("nanos", &r.nanos()).field("year", &r.year()).field("month", &r.month()).field("day", &r.day()).field("hour", &r.hour()).field("min", &r.min()).field("sec", &r.sec()).field("valid", &r.valid()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavTimeLs(r) => { let w = D(&|f| f.debug_struct("NavTimeLs").field("itow", &r.itow()).field("version", &r.version()).field("reserved_1", &r.reserved_1()).field("src_of_curr_ls", &r.src_of_curr_ls()).field("current_ls", &r.current_ls()).field("src_of_ls_change", &r.src_of_ls_change()).field("ls_change", &r.ls_change()).field("time_to_ls_event", &r.time_to_ls_event()).field("date_of_ls_gps_wn", &r.date_of_ls_gps_wn()).field("date_of_ls_gps_dn", &r.date_of_ls_gps_dn()).field("reserved_2", &r.reserved_2()).field("valid", &r.valid()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavSat(r) => { let w = D(&|f| f.debug_struct("NavSat").field("itow", &r.itow()).field("version", &r.version()).field("num_svs", &r.num_svs()).field("reserved", &r.reserved()).field("svs", &r.svs()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavEoe(r) => { let w = D(&|f| f.debug_struct("NavEoe").field("itow", &r.itow()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavOdo(r) => { let w = D(&|f| f.debug_struct("NavOdo").field("version", &r.version()).field("reserved", &r.reserved()).field("itow", &r.itow()).field("distance", &r.distance()).field("total_distance", &r.total_distance()).field("distance_std", &r.distance_std()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgOdo(r) => { let w = D(&|f| f.debug_struct("CfgOdo").field("version", &r.version()).field("reserved", &r.reserved()).field("flags", &r.flags()).field("odo_cfg", &r.odo_cfg()).field("reserved2", &r.reserved2()).field("cog_max_speed", &r.cog_max_speed()).field("cog_max_pos_acc", &r.cog_max_pos_acc()).field("reserved3", &r.reserved3()).field("vel_lp_gain", &r.vel_lp_gain()).field("cog_lp_gain", &r.cog_lp_gain()).field("reserved4", &r.reserved4()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MgaAck(r) => { let w = D(&|f| f.debug_struct("MgaAck").field("ack_type", &r.ack_type()).field("version", &r.version()).field("info_code", &r.info_code()).field("msg_id", &r.msg_id()).field("msg_payload_start", &r.msg_payload_start()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MgaGpsIono(r) => { let w = D(&|f| f.debug_struct("MgaGpsIono").field("msg_type", &r.msg_type()).field("version", &r.version()).field("reserved1", &r.reserved1()).field("alpha0", &r.alpha0()).field("alpha1", &r.alpha1()).field("alpha2", &r.alpha2()).field("alpha3", &r.alpha3()).field("beta0", &r.beta0()).field("beta1", &r.beta1()).field("beta2", &r.beta2()).field("beta3", &r.beta3()).field("reserved2", &r.reserved2()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MgaGpsEph(r) => { let w = D(&|f| f.debug_struct("MgaGpsEph").field("msg_type", &r.msg_type()).field("version", &r.version()).field("sv_id", &r.sv_id()).field("reserved1", &r.reserved1()).field("fit_interval", &r.fit_interval()).field("ura_index", &r.ura_index()).field("sv_health", &r.sv_health()).field("tgd", &r.tgd()).field("iodc", &r.iodc()).field("toc", &r.toc()).field("reserved2", &r.reserved2()).field("af2", &r.af2()).field("af1", &r.af1()).field("af0", &r.af0()).field("crs", &r.crs()).field("delta_n", &r.delta_n()).field("m0", &r.m0()).field("cuc", &r.cuc()).field("cus", &r.cus()).field("e", &r.e()).field("sqrt_a", &r.sqrt_a()).field("toe", &r.toe()).field("cic", &r.cic()).field("omega0", &r.omega0()).field("cis", &r.cis()).field("crc", &r.crc()).field("i0", &r.i0()).field("omega", &r.omega()).field("omega_dot", &r.omega_dot()).field("idot", &r.idot()).field("reserved3", &r.reserved3()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MgaGloEph(r) => { let w = D(&|f| f.debug_struct("MgaGloEph").field("msg_type", &r.msg_type()).field("version", &r.version()).field("sv_id", &r.sv_id()).field("reserved1", &r.reserved1()).field("ft", &r.ft()).field("b", &r.b()).field("m", &r.m()).field("h", &r.h()).field("x", &r.x()).field("y", &r.y()).field("z", &r.z()).field("dx", &r.dx()).field("dy", &r.dy()).field("dz", &r.dz()).field("ddx", &r.ddx()).field("ddy", &r.ddy()).field("ddz", &r.ddz()).field("tb", &r.tb()).field("gamma", &r.gamma()).field("e", &r.e()).field("delta_tau", &r.delta_tau()).field("tau", &r.tau()).field("reserved2", &r.reserved2()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::AlpSrv(r) => { let w = D(&|f| f.debug_struct("AlpSrv").field("id_size", &r.id_size()).field("data_type", &r.data_type()).field("offset", &r.offset()).field("size", &r.size()).field("file_id", &r.file_id()).field("data_size", &r.data_size()).field("id1", &r.id1()).field("id2", &r.id2()).field("id3", &r.id3()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::AckAck(r) => { let w = D(&|f| f.debug_struct("AckAck").field("class", &r.class()).field("msg_id", &r.msg_id()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::AckNak(r) => { let w = D(&|f| f.debug_struct("AckNak").field("class", &r.class()).field("msg_id", &r.msg_id()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgItfm(r) => { let w = D(&|f| f.debug_struct("CfgItfm").field("config", &r.config()).field("config2", &r.config2()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgPrtI2c(r) => { let w = D(&|f| f.debug_struct("CfgPrtI2c").field("portid", &r.portid()).field("reserved1", &r.reserved1()).field("tx_ready", &r.tx_ready()).field("mode", &r.mode()).field("reserved2", &r.reserved2()).field("in_proto_mask", &r.in_proto_mask()).field("out_proto_mask", &r.out_proto_mask()).field("flags", &r.flags()).field("reserved3", &r.reserved3()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgPrtSpi(r) => { let w = D(&|f| f.debug_struct("CfgPrtSpi").field("portid", &r.portid()).field("reserved0", &r.reserved0()).field("tx_ready", &r.tx_ready()).field("mode", &r.mode()).field("reserved3", &r.reserved3()).field("in_proto_mask", &r.in_proto_mask()).field("out_proto_mask", &r.out_proto_mask()).field("flags", &r.flags()).field("reserved5", &r.reserved5()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgPrtUart(r) => { let w = D(&|f| f.debug_struct("CfgPrtUart").field("portid", &r.portid()).field("reserved0", &r.reserved0()).field("tx_ready", &r.tx_ready()).field("mode", &r.mode()).field("baud_rate", &r.baud_rate()).field("in_proto_mask", &r.in_proto_mask()).field("out_proto_mask", &r.out_proto_mask()).field("flags", &r.flags()).field("reserved5", &r.reserved5()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgNav5(r) => { let w = D(&|f| f.debug_struct("CfgNav5").field("mask", &r.mask()).field("dyn_model", &r.dyn_model()).field("fix_mode", &r.fix_mode()).field("fixed_alt", &r.fixed_alt()).field("fixed_alt_var", &r.fixed_alt_var()).field("min_elev_degrees", &r.min_elev_degrees()).field("dr_limit", &r.dr_limit()).field("pdop", &r.pdop()).field("tdop", &r.tdop()).field("pacc", &r.pacc()).field("tacc", &r.tacc()).field("static_hold_thresh", &r.static_hold_thresh()).field("dgps_time_out", &r.dgps_time_out()).field("cno_thresh_num_svs", &r.cno_thresh_num_svs()).field("cno_thresh", &r.cno_thresh()).field("reserved1", &r.reserved1()).field("static_hold_max_dist", &r.static_hold_max_dist()).field("utc_standard", &r.utc_standard()).field("reserved2", &r.reserved2()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgAnt(r) => { let w = D(&|f| f.debug_struct("CfgAnt").field("flags", &r.flags()).field("pins", &r.pins()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgTmode2(r) => { let w = D(&|f| f.debug_struct("CfgTmode2").field("time_transfer_mode", &r.time_transfer_mode()).field("reserved1", &r.reserved1()).field("flags", &r.flags()).field("ecef_x_or_lat", &r.ecef_x_or_lat()).field("ecef_y_or_lon", &r.ecef_y_or_lon()).field("ecef_z_or_alt", &r.ecef_z_or_alt()).field("fixed_pos_acc", &r.fixed_pos_acc()).field("survey_in_min_duration", &r.survey_in_min_duration()).field("survery_in_accur_limit", &r.survery_in_accur_limit()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgTmode3(r) => { let w = D(&|f| f.debug_struct("CfgTmode3").field("version", &r.version()).field("reserved1", &r.reserved1()).field("rcvr_mode", &r.rcvr_mode()).field("flags", &r.flags()).field("ecef_x_or_lat", &r.ecef_x_or_lat()).field("ecef_y_or_lon", &r.ecef_y_or_lon()).field("ecef_z_or_alt", &r.ecef_z_or_alt()).field("ecef_x_or_lat_hp", &r.ecef_x_or_lat_hp()).field("ecef_y_or_lon_hp", &r.ecef_y_or_lon_hp()).field("ecef_z_or_alt_hp", &r.ecef_z_or_alt_hp()).field("reserved2", &r.reserved2()).field("fixed_pos_acc", &r.fixed_pos_acc()).field("sv_in_min_duration", &r.sv_in_min_duration()).field("sv_in_accur_limit", &r.sv_in_accur_limit()).field("reserved3", &r.reserved3()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::CfgTp5(r) => { let w = D(&|f| f.debug_struct("CfgTp5").field("tp_idx", &r.tp_idx()).field("version", &r.version()).field("reserved1", &r.reserved1()).field("ant_cable_delay", &r.ant_cable_delay()).field("rf_group_delay", &r.rf_group_delay()).field("freq_period", &r.freq_period()).field("freq_period_lock", &r.freq_period_lock()).field("pulse_len_ratio", &r.pulse_len_ratio()).field("pulse_len_ratio_lock", &r.pulse_len_ratio_lock()).field("user_delay", &r.user_delay()).field("flags", &r.flags()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::InfError(r) => { let w = D(&|f| f.debug_struct("InfError").field("message", &r.message()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::InfWarning(r) => { let w = D(&|f| f.debug_struct("InfWarning").field("message", &r.message()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::InfNotice(r) => { let w = D(&|f| f.debug_struct("InfNotice").field("message", &r.message()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::InfTest(r) => { let w = D(&|f| f.debug_struct("InfTest").field("message", &r.message()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::InfDebug(r) => { let w = D(&|f| f.debug_struct("InfDebug").field("message", &r.message()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::RxmRawx(r) => { let w = D(&|f| f.debug_struct("RxmRawx").field("rcv_tow", &r.rcv_tow()).field("week", &r.week()).field("leap_s", &r.leap_s()).field("num_meas", &r.num_meas()).field("rec_stat", &r.rec_stat()).field("version", &r.version()).field("reserved1", &r.reserved1()).field("measurements", &r.measurements()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::TimTp(r) => { let w = D(&|f| f.debug_struct("TimTp").field("tow_ms", &r.tow_ms()).field("tow_sub_ms", &r.tow_sub_ms()).field("q_err", &r.q_err()).field("week", &r.week()).field("flags", &r.flags()).field("ref_info", &r.ref_info()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::TimTm2(r) => { let w = D(&|f| f.debug_struct("TimTm2").field("ch", &r.ch()).field("flags", &r.flags()).field("count", &r.count()).field("wn_r", &r.wn_r()).field("wn_f", &r.wn_f()).field("tow_ms_r", &r.tow_ms_r()).field("tow_sub_ms_r", &r.tow_sub_ms_r()).field("tow_ms_f", &r.tow_ms_f()).field("tow_sub_ms_f", &r.tow_sub_ms_f()).field("acc_est", &r.acc_est()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MonVer(r) => { let w = D(&|f| f.debug_struct("MonVer").field("software_version", &r.software_version()).field("hardware_version", &r.hardware_version()).field("extension", &r.extension()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MonGnss(r) => { let w = D(&|f| f.debug_struct("MonGnss").field("version", &r.version()).field("supported", &r.supported()).field("default", &r.default()).field("enabled", &r.enabled()).field("simultaneous", &r.simultaneous()).field("reserved1", &r.reserved1()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MonHw(r) => { let w = D(&|f| f.debug_struct("MonHw").field("pin_sel", &r.pin_sel()).field("pin_bank", &r.pin_bank()).field("pin_dir", &r.pin_dir()).field("pin_val", &r.pin_val()).field("noise_per_ms", &r.noise_per_ms()).field("agc_cnt", &r.agc_cnt()).field("a_status", &r.a_status()).field("a_power", &r.a_power()).field("flags", &r.flags()).field("reserved1", &r.reserved1()).field("used_mask", &r.used_mask()).field("vp", &r.vp()).field("jam_ind", &r.jam_ind()).field("reserved2", &r.reserved2()).field("pin_irq", &r.pin_irq()).field("pull_h", &r.pull_h()).field("pull_l", &r.pull_l()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::RxmRtcm(r) => { let w = D(&|f| f.debug_struct("RxmRtcm").field("version", &r.version()).field("flags", &r.flags()).field("sub_type", &r.sub_type()).field("ref_station", &r.ref_station()).field("msg_type", &r.msg_type()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::EsfMeas(r) => { let w = D(&|f| f.debug_struct("EsfMeas").field("time_tag", &r.time_tag()).field("flags", &r.flags()).field("id", &r.id()).field("data", &r.data()).field("calib_tag", &r.calib_tag()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::EsfIns(r) => { let w = D(&|f| f.debug_struct("EsfIns").field("bit_field", &r.bit_field()).field("reserved", &r.reserved()).field("itow", &r.itow()).field("x_ang_rate", &r.x_angular_rate()).field("y_ang_rate", &r.y_angular_rate()).field("z_ang_rate", &r.z_angular_rate()).field("x_accel", &r.x_acceleration()).field("y_accel", &r.y_acceleration()).field("z_accel", &r.z_acceleration()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::HnrAtt(r) => { let w = D(&|f| f.debug_struct("HnrAtt").field("itow", &r.itow()).field("version", &r.version()).field("reserved1", &r.reserved1()).field("roll", &r.vehicle_roll()).field("pitch", &r.vehicle_pitch()).field("heading", &r.vehicle_heading()).field("acc_roll", &r.vehicle_roll_accuracy()).field("acc_pitch", &r.vehicle_pitch_accuracy()).field("acc_heading", &r.vehicle_heading_accuracy()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::HnrIns(r) => { let w = D(&|f| f.debug_struct("HnrIns").field("bit_field", &r.bit_field()).field("reserved", &r.reserved()).field("itow", &r.itow()).field("x_ang_rate", &r.x_angular_rate()).field("y_ang_rate", &r.y_angular_rate()).field("z_ang_rate", &r.z_angular_rate()).field("x_accel", &r.x_acceleration()).field("y_accel", &r.y_acceleration()).field("z_accel", &r.z_acceleration()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::HnrPvt(r) => { let w = D(&|f| f.debug_struct("HnrPvt").field("itow", &r.itow()).field("year", &r.year()).field("month", &r.month()).field("day", &r.day()).field("hour", &r.hour()).field("min", &r.min()).field("sec", &r.sec()).field("valid", &r.valid()).field("nano", &r.nano()).field("gps_fix", &r.gps_fix()).field("flags", &r.flags()).field("reserved1", &r.reserved1()).field("lon", &r.longitude()).field("lat", &r.latitude()).field("height", &r.height_above_ellipsoid()).field("height_msl", &r.height_msl()).field("g_speed", &r.ground_speed_2d()).field("speed", &r.speed_3d()).field("head_mot", &r.heading_motion()).field("head_veh", &r.heading_vehicle()).field("h_acc", &r.h_acc()).field("v_acc", &r.v_acc()).field("s_acc", &r.s_acc()).field("head_acc", &r.heading_accurracy()).field("reserved2", &r.reserved2()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavAtt(r) => { let w = D(&|f| f.debug_struct("NavAtt").field("itow", &r.itow()).field("version", &r.version()).field("reserved1", &r.reserved1()).field("roll", &r.vehicle_roll()).field("pitch", &r.vehicle_pitch()).field("heading", &r.vehicle_heading()).field("acc_roll", &r.vehicle_roll_accuracy()).field("acc_pitch", &r.vehicle_pitch_accuracy()).field("acc_heading", &r.vehicle_heading_accuracy()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavClock(r) => { let w = D(&|f| f.debug_struct("NavClock").field("itow", &r.itow()).field("clk_b", &r.clk_b()).field("clk_d", &r.clk_d()).field("t_acc", &r.t_acc()).field("f_acc", &r.f_acc()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::NavVelECEF(r) => { let w = D(&|f| f.debug_struct("NavVelECEF").field("itow", &r.itow()).field("ecef_vx", &r.ecef_vx()).field("ecef_vy", &r.ecef_vy()).field("ecef_vz", &r.ecef_vz()).field("s_acc", &r.s_acc()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::MgaGpsEPH(r) => { let w = D(&|f| f.debug_struct("MgaGpsEPH").field("msg_type", &r.msg_type()).field("version", &r.version()).field("sv_id", &r.sv_id()).field("reserved1", &r.reserved1()).field("fit_interval", &r.fit_interval()).field("ura_index", &r.ura_index()).field("sv_health", &r.sv_health()).field("tgd", &r.tgd()).field("iodc", &r.iodc()).field("toc", &r.toc()).field("reserved2", &r.reserved2()).field("af2", &r.af2()).field("afl", &r.afl()).field("af0", &r.af0()).field("crs", &r.crs()).field("delta_n", &r.delta_n()).field("m0", &r.m0()).field("cuc", &r.cuc()).field("cus", &r.cus()).field("e", &r.e()).field("sqrt_a", &r.sqrt_a()).field("toe", &r.toe()).field("cic", &r.cic()).field("omega0", &r.omega0()).field("cis", &r.cis()).field("crc", &r.crc()).field("i0", &r.i0()).field("omega", &r.omega()).field("omega_dot", &r.omega_dot()).field("idot", &r.idot()).field("reserved3", &r.reserved3()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::RxmSfrbx(r) => { let w = D(&|f| f.debug_struct("RxmSfrbx").field("gnss_id", &r.gnss_id()).field("sv_id", &r.sv_id()).field("reserved1", &r.reserved1()).field("freq_id", &r.freq_id()).field("num_words", &r.num_words()).field("reserved2", &r.reserved2()).field("version", &r.version()).field("reserved3", &r.reserved3()).field("dwrd", &r.dwrd()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::EsfRaw(r) => { let w = D(&|f| f.debug_struct("EsfRaw").field("msss", &r.msss()).field("data", &r.data()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::TimSvin(r) => { let w = D(&|f| f.debug_struct("TimSvin").field("dur", &r.dur()).field("mean_x", &r.mean_x()).field("mean_y", &r.mean_y()).field("mean_z", &r.mean_z()).field("mean_v", &r.mean_v()).field("obs", &r.obs()).field("valid", &r.valid()).field("active", &r.active()).field("reserved", &r.reserved()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  PacketRef::SecUniqId(r) => { let w = D(&|f| f.debug_struct("SecUniqId").field("version", &r.version()).field("reserved1", &r.reserved1()).field("unique_id", &r.unique_id()).finish()); if alt { format!("{:#?}", w) } else { format!("{:?}", w) } }
  _ => return None }) }
pub fn debug_inner(p: &PacketRef, alt: bool) -> Option<String> { Some(match p {
  PacketRef::NavPosLlh(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavStatus(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavDop(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavPvt(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavSolution(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavVelNed(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavHpPosLlh(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavHpPosEcef(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavTimeUTC(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavTimeLs(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavSat(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavEoe(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavOdo(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgOdo(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MgaAck(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MgaGpsIono(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MgaGpsEph(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MgaGloEph(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::AlpSrv(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::AckAck(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::AckNak(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgItfm(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgPrtI2c(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgPrtSpi(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgPrtUart(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgNav5(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgAnt(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgTmode2(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgTmode3(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::CfgTp5(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::InfError(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::InfWarning(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::InfNotice(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::InfTest(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::InfDebug(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::RxmRawx(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::TimTp(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::TimTm2(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MonVer(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MonGnss(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MonHw(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::RxmRtcm(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::EsfMeas(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::EsfIns(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::HnrAtt(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::HnrIns(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::HnrPvt(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavAtt(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavClock(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::NavVelECEF(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::MgaGpsEPH(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::RxmSfrbx(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::EsfRaw(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::TimSvin(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  PacketRef::SecUniqId(r) => if alt { format!("{:#?}", r) } else { format!("{:?}", r) },
  _ => return None }) }
#[cfg(feature = "serde")]
pub fn json_inner(p: &PacketRef) -> Option<String> { Some(match p {
  PacketRef::NavPosLlh(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavStatus(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavDop(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavPvt(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavSolution(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavVelNed(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavHpPosLlh(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavHpPosEcef(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavTimeUTC(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavTimeLs(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavSat(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavEoe(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavOdo(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgOdo(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MgaAck(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MgaGpsIono(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MgaGpsEph(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MgaGloEph(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::AlpSrv(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::AckAck(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::AckNak(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgItfm(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgPrtI2c(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgPrtSpi(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgPrtUart(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgNav5(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgAnt(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgTmode2(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgTmode3(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::CfgTp5(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::InfError(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::InfWarning(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::InfNotice(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::InfTest(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::InfDebug(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::RxmRawx(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::TimTp(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::TimTm2(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MonVer(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MonGnss(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MonHw(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::RxmRtcm(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::EsfMeas(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::EsfIns(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::HnrAtt(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::HnrIns(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::HnrPvt(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavAtt(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavClock(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::NavVelECEF(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::MgaGpsEPH(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::RxmSfrbx(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::EsfRaw(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::TimSvin(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  PacketRef::SecUniqId(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),
  _ => return None }) }
pub fn metas() -> Vec<(&'static str, u8, u8, Option<u16>, u16)> { vec![
  ("NavPosLlh", NavPosLlh::CLASS, NavPosLlh::ID, NavPosLlh::FIXED_PAYLOAD_LEN, NavPosLlh::MAX_PAYLOAD_LEN),
  ("NavVelNed", NavVelNed::CLASS, NavVelNed::ID, NavVelNed::FIXED_PAYLOAD_LEN, NavVelNed::MAX_PAYLOAD_LEN),
  ("NavHpPosLlh", NavHpPosLlh::CLASS, NavHpPosLlh::ID, NavHpPosLlh::FIXED_PAYLOAD_LEN, NavHpPosLlh::MAX_PAYLOAD_LEN),
  ("NavHpPosEcef", NavHpPosEcef::CLASS, NavHpPosEcef::ID, NavHpPosEcef::FIXED_PAYLOAD_LEN, NavHpPosEcef::MAX_PAYLOAD_LEN),
  ("NavPvt", NavPvt::CLASS, NavPvt::ID, NavPvt::FIXED_PAYLOAD_LEN, NavPvt::MAX_PAYLOAD_LEN),
  ("NavStatus", NavStatus::CLASS, NavStatus::ID, NavStatus::FIXED_PAYLOAD_LEN, NavStatus::MAX_PAYLOAD_LEN),
  ("NavDop", NavDop::CLASS, NavDop::ID, NavDop::FIXED_PAYLOAD_LEN, NavDop::MAX_PAYLOAD_LEN),
  ("NavEoe", NavEoe::CLASS, NavEoe::ID, NavEoe::FIXED_PAYLOAD_LEN, NavEoe::MAX_PAYLOAD_LEN),
  ("NavSolution", NavSolution::CLASS, NavSolution::ID, NavSolution::FIXED_PAYLOAD_LEN, NavSolution::MAX_PAYLOAD_LEN),
  ("NavSatSvInfo", NavSatSvInfo::CLASS, NavSatSvInfo::ID, NavSatSvInfo::FIXED_PAYLOAD_LEN, NavSatSvInfo::MAX_PAYLOAD_LEN),
  ("NavSat", NavSat::CLASS, NavSat::ID, NavSat::FIXED_PAYLOAD_LEN, NavSat::MAX_PAYLOAD_LEN),
  ("NavOdo", NavOdo::CLASS, NavOdo::ID, NavOdo::FIXED_PAYLOAD_LEN, NavOdo::MAX_PAYLOAD_LEN),
  ("NavResetOdo", NavResetOdo::CLASS, NavResetOdo::ID, NavResetOdo::FIXED_PAYLOAD_LEN, NavResetOdo::MAX_PAYLOAD_LEN),
  ("CfgOdo", CfgOdo::CLASS, CfgOdo::ID, CfgOdo::FIXED_PAYLOAD_LEN, CfgOdo::MAX_PAYLOAD_LEN),
  ("CfgItfm", CfgItfm::CLASS, CfgItfm::ID, CfgItfm::FIXED_PAYLOAD_LEN, CfgItfm::MAX_PAYLOAD_LEN),
  ("CfgInf", CfgInf::CLASS, CfgInf::ID, CfgInf::FIXED_PAYLOAD_LEN, CfgInf::MAX_PAYLOAD_LEN),
  ("InfError", InfError::CLASS, InfError::ID, InfError::FIXED_PAYLOAD_LEN, InfError::MAX_PAYLOAD_LEN),
  ("InfNotice", InfNotice::CLASS, InfNotice::ID, InfNotice::FIXED_PAYLOAD_LEN, InfNotice::MAX_PAYLOAD_LEN),
  ("InfTest", InfTest::CLASS, InfTest::ID, InfTest::FIXED_PAYLOAD_LEN, InfTest::MAX_PAYLOAD_LEN),
  ("InfWarning", InfWarning::CLASS, InfWarning::ID, InfWarning::FIXED_PAYLOAD_LEN, InfWarning::MAX_PAYLOAD_LEN),
  ("InfDebug", InfDebug::CLASS, InfDebug::ID, InfDebug::FIXED_PAYLOAD_LEN, InfDebug::MAX_PAYLOAD_LEN),
  ("AidIni", AidIni::CLASS, AidIni::ID, AidIni::FIXED_PAYLOAD_LEN, AidIni::MAX_PAYLOAD_LEN),
  ("AlpSrv", AlpSrv::CLASS, AlpSrv::ID, AlpSrv::FIXED_PAYLOAD_LEN, AlpSrv::MAX_PAYLOAD_LEN),
  ("AckAck", AckAck::CLASS, AckAck::ID, AckAck::FIXED_PAYLOAD_LEN, AckAck::MAX_PAYLOAD_LEN),
  ("AckNak", AckNak::CLASS, AckNak::ID, AckNak::FIXED_PAYLOAD_LEN, AckNak::MAX_PAYLOAD_LEN),
  ("CfgRst", CfgRst::CLASS, CfgRst::ID, CfgRst::FIXED_PAYLOAD_LEN, CfgRst::MAX_PAYLOAD_LEN),
  ("CfgAnt", CfgAnt::CLASS, CfgAnt::ID, CfgAnt::FIXED_PAYLOAD_LEN, CfgAnt::MAX_PAYLOAD_LEN),
  ("CfgTp5", CfgTp5::CLASS, CfgTp5::ID, CfgTp5::FIXED_PAYLOAD_LEN, CfgTp5::MAX_PAYLOAD_LEN),
  ("CfgTmode2", CfgTmode2::CLASS, CfgTmode2::ID, CfgTmode2::FIXED_PAYLOAD_LEN, CfgTmode2::MAX_PAYLOAD_LEN),
  ("TimSvin", TimSvin::CLASS, TimSvin::ID, TimSvin::FIXED_PAYLOAD_LEN, TimSvin::MAX_PAYLOAD_LEN),
  ("NavTimeLs", NavTimeLs::CLASS, NavTimeLs::ID, NavTimeLs::FIXED_PAYLOAD_LEN, NavTimeLs::MAX_PAYLOAD_LEN),
  ("CfgTmode3", CfgTmode3::CLASS, CfgTmode3::ID, CfgTmode3::FIXED_PAYLOAD_LEN, CfgTmode3::MAX_PAYLOAD_LEN),
  ("CfgValSet", CfgValSet::CLASS, CfgValSet::ID, CfgValSet::FIXED_PAYLOAD_LEN, CfgValSet::MAX_PAYLOAD_LEN),
  ("CfgPrtI2c", CfgPrtI2c::CLASS, CfgPrtI2c::ID, CfgPrtI2c::FIXED_PAYLOAD_LEN, CfgPrtI2c::MAX_PAYLOAD_LEN),
  ("CfgPrtUart", CfgPrtUart::CLASS, CfgPrtUart::ID, CfgPrtUart::FIXED_PAYLOAD_LEN, CfgPrtUart::MAX_PAYLOAD_LEN),
  ("CfgPrtSpi", CfgPrtSpi::CLASS, CfgPrtSpi::ID, CfgPrtSpi::FIXED_PAYLOAD_LEN, CfgPrtSpi::MAX_PAYLOAD_LEN),
  ("NavTimeUTC", NavTimeUTC::CLASS, NavTimeUTC::ID, NavTimeUTC::FIXED_PAYLOAD_LEN, NavTimeUTC::MAX_PAYLOAD_LEN),
  ("CfgRate", CfgRate::CLASS, CfgRate::ID, CfgRate::FIXED_PAYLOAD_LEN, CfgRate::MAX_PAYLOAD_LEN),
  ("CfgMsgSinglePort", CfgMsgSinglePort::CLASS, CfgMsgSinglePort::ID, CfgMsgSinglePort::FIXED_PAYLOAD_LEN, CfgMsgSinglePort::MAX_PAYLOAD_LEN),
  ("CfgMsgAllPorts", CfgMsgAllPorts::CLASS, CfgMsgAllPorts::ID, CfgMsgAllPorts::FIXED_PAYLOAD_LEN, CfgMsgAllPorts::MAX_PAYLOAD_LEN),
  ("CfgNav5", CfgNav5::CLASS, CfgNav5::ID, CfgNav5::FIXED_PAYLOAD_LEN, CfgNav5::MAX_PAYLOAD_LEN),
  ("CfgNavX5", CfgNavX5::CLASS, CfgNavX5::ID, CfgNavX5::FIXED_PAYLOAD_LEN, CfgNavX5::MAX_PAYLOAD_LEN),
  ("MgaAck", MgaAck::CLASS, MgaAck::ID, MgaAck::FIXED_PAYLOAD_LEN, MgaAck::MAX_PAYLOAD_LEN),
  ("MgaGloEph", MgaGloEph::CLASS, MgaGloEph::ID, MgaGloEph::FIXED_PAYLOAD_LEN, MgaGloEph::MAX_PAYLOAD_LEN),
  ("MgaGpsIono", MgaGpsIono::CLASS, MgaGpsIono::ID, MgaGpsIono::FIXED_PAYLOAD_LEN, MgaGpsIono::MAX_PAYLOAD_LEN),
  ("MgaGpsEph", MgaGpsEph::CLASS, MgaGpsEph::ID, MgaGpsEph::FIXED_PAYLOAD_LEN, MgaGpsEph::MAX_PAYLOAD_LEN),
  ("TimTp", TimTp::CLASS, TimTp::ID, TimTp::FIXED_PAYLOAD_LEN, TimTp::MAX_PAYLOAD_LEN),
  ("TimTm2", TimTm2::CLASS, TimTm2::ID, TimTm2::FIXED_PAYLOAD_LEN, TimTm2::MAX_PAYLOAD_LEN),
  ("RxmRawx", RxmRawx::CLASS, RxmRawx::ID, RxmRawx::FIXED_PAYLOAD_LEN, RxmRawx::MAX_PAYLOAD_LEN),
  ("MonHw", MonHw::CLASS, MonHw::ID, MonHw::FIXED_PAYLOAD_LEN, MonHw::MAX_PAYLOAD_LEN),
  ("MonGnss", MonGnss::CLASS, MonGnss::ID, MonGnss::FIXED_PAYLOAD_LEN, MonGnss::MAX_PAYLOAD_LEN),
  ("MonVer", MonVer::CLASS, MonVer::ID, MonVer::FIXED_PAYLOAD_LEN, MonVer::MAX_PAYLOAD_LEN),
  ("RxmRtcm", RxmRtcm::CLASS, RxmRtcm::ID, RxmRtcm::FIXED_PAYLOAD_LEN, RxmRtcm::MAX_PAYLOAD_LEN),
  ("EsfMeas", EsfMeas::CLASS, EsfMeas::ID, EsfMeas::FIXED_PAYLOAD_LEN, EsfMeas::MAX_PAYLOAD_LEN),
  ("EsfRaw", EsfRaw::CLASS, EsfRaw::ID, EsfRaw::FIXED_PAYLOAD_LEN, EsfRaw::MAX_PAYLOAD_LEN),
  ("EsfIns", EsfIns::CLASS, EsfIns::ID, EsfIns::FIXED_PAYLOAD_LEN, EsfIns::MAX_PAYLOAD_LEN),
  ("HnrAtt", HnrAtt::CLASS, HnrAtt::ID, HnrAtt::FIXED_PAYLOAD_LEN, HnrAtt::MAX_PAYLOAD_LEN),
  ("HnrIns", HnrIns::CLASS, HnrIns::ID, HnrIns::FIXED_PAYLOAD_LEN, HnrIns::MAX_PAYLOAD_LEN),
  ("HnrPvt", HnrPvt::CLASS, HnrPvt::ID, HnrPvt::FIXED_PAYLOAD_LEN, HnrPvt::MAX_PAYLOAD_LEN),
  ("NavAtt", NavAtt::CLASS, NavAtt::ID, NavAtt::FIXED_PAYLOAD_LEN, NavAtt::MAX_PAYLOAD_LEN),
  ("NavClock", NavClock::CLASS, NavClock::ID, NavClock::FIXED_PAYLOAD_LEN, NavClock::MAX_PAYLOAD_LEN),
  ("RxmSfrbx", RxmSfrbx::CLASS, RxmSfrbx::ID, RxmSfrbx::FIXED_PAYLOAD_LEN, RxmSfrbx::MAX_PAYLOAD_LEN),
  ("NavVelECEF", NavVelECEF::CLASS, NavVelECEF::ID, NavVelECEF::FIXED_PAYLOAD_LEN, NavVelECEF::MAX_PAYLOAD_LEN),
  ("MgaGpsEPH", MgaGpsEPH::CLASS, MgaGpsEPH::ID, MgaGpsEPH::FIXED_PAYLOAD_LEN, MgaGpsEPH::MAX_PAYLOAD_LEN),
  ("RxmRawxInfo", RxmRawxInfo::CLASS, RxmRawxInfo::ID, RxmRawxInfo::FIXED_PAYLOAD_LEN, RxmRawxInfo::MAX_PAYLOAD_LEN),
  ("SecUniqId", SecUniqId::CLASS, SecUniqId::ID, SecUniqId::FIXED_PAYLOAD_LEN, SecUniqId::MAX_PAYLOAD_LEN),
] }
pub fn ack_for(r: &AckAckRef) -> Vec<(&'static str, bool)> { vec![("NavPosLlh", r.is_ack_for::<NavPosLlh>()), ("NavVelNed", r.is_ack_for::<NavVelNed>()), ("NavHpPosLlh", r.is_ack_for::<NavHpPosLlh>()), ("NavHpPosEcef", r.is_ack_for::<NavHpPosEcef>()), ("NavPvt", r.is_ack_for::<NavPvt>()), ("NavStatus", r.is_ack_for::<NavStatus>()), ("NavDop", r.is_ack_for::<NavDop>()), ("NavEoe", r.is_ack_for::<NavEoe>()), ("NavSolution", r.is_ack_for::<NavSolution>()), ("NavSatSvInfo", r.is_ack_for::<NavSatSvInfo>()), ("NavSat", r.is_ack_for::<NavSat>()), ("NavOdo", r.is_ack_for::<NavOdo>()), ("NavResetOdo", r.is_ack_for::<NavResetOdo>()), ("CfgOdo", r.is_ack_for::<CfgOdo>()), ("CfgItfm", r.is_ack_for::<CfgItfm>()), ("CfgInf", r.is_ack_for::<CfgInf>()), ("InfError", r.is_ack_for::<InfError>()), ("InfNotice", r.is_ack_for::<InfNotice>()), ("InfTest", r.is_ack_for::<InfTest>()), ("InfWarning", r.is_ack_for::<InfWarning>()), ("InfDebug", r.is_ack_for::<InfDebug>()), ("AidIni", r.is_ack_for::<AidIni>()), ("AlpSrv", r.is_ack_for::<AlpSrv>()), ("AckAck", r.is_ack_for::<AckAck>()), ("AckNak", r.is_ack_for::<AckNak>()), ("CfgRst", r.is_ack_for::<CfgRst>()), ("CfgAnt", r.is_ack_for::<CfgAnt>()), ("CfgTp5", r.is_ack_for::<CfgTp5>()), ("CfgTmode2", r.is_ack_for::<CfgTmode2>()), ("TimSvin", r.is_ack_for::<TimSvin>()), ("NavTimeLs", r.is_ack_for::<NavTimeLs>()), ("CfgTmode3", r.is_ack_for::<CfgTmode3>()), ("CfgValSet", r.is_ack_for::<CfgValSet>()), ("CfgPrtI2c", r.is_ack_for::<CfgPrtI2c>()), ("CfgPrtUart", r.is_ack_for::<CfgPrtUart>()), ("CfgPrtSpi", r.is_ack_for::<CfgPrtSpi>()), ("NavTimeUTC", r.is_ack_for::<NavTimeUTC>()), ("CfgRate", r.is_ack_for::<CfgRate>()), ("CfgMsgSinglePort", r.is_ack_for::<CfgMsgSinglePort>()), ("CfgMsgAllPorts", r.is_ack_for::<CfgMsgAllPorts>()), ("CfgNav5", r.is_ack_for::<CfgNav5>()), ("CfgNavX5", r.is_ack_for::<CfgNavX5>()), ("MgaAck", r.is_ack_for::<MgaAck>()), ("MgaGloEph", r.is_ack_for::<MgaGloEph>()), ("MgaGpsIono", r.is_ack_for::<MgaGpsIono>()), ("MgaGpsEph", r.is_ack_for::<MgaGpsEph>()), ("TimTp", r.is_ack_for::<TimTp>()), ("TimTm2", r.is_ack_for::<TimTm2>()), ("RxmRawx", r.is_ack_for::<RxmRawx>()), ("MonHw", r.is_ack_for::<MonHw>()), ("MonGnss", r.is_ack_for::<MonGnss>()), ("MonVer", r.is_ack_for::<MonVer>()), ("RxmRtcm", r.is_ack_for::<RxmRtcm>()), ("EsfMeas", r.is_ack_for::<EsfMeas>()), ("EsfRaw", r.is_ack_for::<EsfRaw>()), ("EsfIns", r.is_ack_for::<EsfIns>()), ("HnrAtt", r.is_ack_for::<HnrAtt>()), ("HnrIns", r.is_ack_for::<HnrIns>()), ("HnrPvt", r.is_ack_for::<HnrPvt>()), ("NavAtt", r.is_ack_for::<NavAtt>()), ("NavClock", r.is_ack_for::<NavClock>()), ("RxmSfrbx", r.is_ack_for::<RxmSfrbx>()), ("NavVelECEF", r.is_ack_for::<NavVelECEF>()), ("MgaGpsEPH", r.is_ack_for::<MgaGpsEPH>()), ("RxmRawxInfo", r.is_ack_for::<RxmRawxInfo>()), ("SecUniqId", r.is_ack_for::<SecUniqId>())] }
pub fn nak_for(r: &AckNakRef) -> Vec<(&'static str, bool)> { vec![("NavPosLlh", r.is_nak_for::<NavPosLlh>()), ("NavVelNed", r.is_nak_for::<NavVelNed>()), ("NavHpPosLlh", r.is_nak_for::<NavHpPosLlh>()), ("NavHpPosEcef", r.is_nak_for::<NavHpPosEcef>()), ("NavPvt", r.is_nak_for::<NavPvt>()), ("NavStatus", r.is_nak_for::<NavStatus>()), ("NavDop", r.is_nak_for::<NavDop>()), ("NavEoe", r.is_nak_for::<NavEoe>()), ("NavSolution", r.is_nak_for::<NavSolution>()), ("NavSatSvInfo", r.is_nak_for::<NavSatSvInfo>()), ("NavSat", r.is_nak_for::<NavSat>()), ("NavOdo", r.is_nak_for::<NavOdo>()), ("NavResetOdo", r.is_nak_for::<NavResetOdo>()), ("CfgOdo", r.is_nak_for::<CfgOdo>()), ("CfgItfm", r.is_nak_for::<CfgItfm>()), ("CfgInf", r.is_nak_for::<CfgInf>()), ("InfError", r.is_nak_for::<InfError>()), ("InfNotice", r.is_nak_for::<InfNotice>()), ("InfTest", r.is_nak_for::<InfTest>()), ("InfWarning", r.is_nak_for::<InfWarning>()), ("InfDebug", r.is_nak_for::<InfDebug>()), ("AidIni", r.is_nak_for::<AidIni>()), ("AlpSrv", r.is_nak_for::<AlpSrv>()), ("AckAck", r.is_nak_for::<AckAck>()), ("AckNak", r.is_nak_for::<AckNak>()), ("CfgRst", r.is_nak_for::<CfgRst>()), ("CfgAnt", r.is_nak_for::<CfgAnt>()), ("CfgTp5", r.is_nak_for::<CfgTp5>()), ("CfgTmode2", r.is_nak_for::<CfgTmode2>()), ("TimSvin", r.is_nak_for::<TimSvin>()), ("NavTimeLs", r.is_nak_for::<NavTimeLs>()), ("CfgTmode3", r.is_nak_for::<CfgTmode3>()), ("CfgValSet", r.is_nak_for::<CfgValSet>()), ("CfgPrtI2c", r.is_nak_for::<CfgPrtI2c>()), ("CfgPrtUart", r.is_nak_for::<CfgPrtUart>()), ("CfgPrtSpi", r.is_nak_for::<CfgPrtSpi>()), ("NavTimeUTC", r.is_nak_for::<NavTimeUTC>()), ("CfgRate", r.is_nak_for::<CfgRate>()), ("CfgMsgSinglePort", r.is_nak_for::<CfgMsgSinglePort>()), ("CfgMsgAllPorts", r.is_nak_for::<CfgMsgAllPorts>()), ("CfgNav5", r.is_nak_for::<CfgNav5>()), ("CfgNavX5", r.is_nak_for::<CfgNavX5>()), ("MgaAck", r.is_nak_for::<MgaAck>()), ("MgaGloEph", r.is_nak_for::<MgaGloEph>()), ("MgaGpsIono", r.is_nak_for::<MgaGpsIono>()), ("MgaGpsEph", r.is_nak_for::<MgaGpsEph>()), ("TimTp", r.is_nak_for::<TimTp>()), ("TimTm2", r.is_nak_for::<TimTm2>()), ("RxmRawx", r.is_nak_for::<RxmRawx>()), ("MonHw", r.is_nak_for::<MonHw>()), ("MonGnss", r.is_nak_for::<MonGnss>()), ("MonVer", r.is_nak_for::<MonVer>()), ("RxmRtcm", r.is_nak_for::<RxmRtcm>()), ("EsfMeas", r.is_nak_for::<EsfMeas>()), ("EsfRaw", r.is_nak_for::<EsfRaw>()), ("EsfIns", r.is_nak_for::<EsfIns>()), ("HnrAtt", r.is_nak_for::<HnrAtt>()), ("HnrIns", r.is_nak_for::<HnrIns>()), ("HnrPvt", r.is_nak_for::<HnrPvt>()), ("NavAtt", r.is_nak_for::<NavAtt>()), ("NavClock", r.is_nak_for::<NavClock>()), ("RxmSfrbx", r.is_nak_for::<RxmSfrbx>()), ("NavVelECEF", r.is_nak_for::<NavVelECEF>()), ("MgaGpsEPH", r.is_nak_for::<MgaGpsEPH>()), ("RxmRawxInfo", r.is_nak_for::<RxmRawxInfo>()), ("SecUniqId", r.is_nak_for::<SecUniqId>())] }
pub fn requests() -> Vec<(&'static str, [u8; 8])> { vec![("NavPosLlh", UbxPacketRequest::request_for::<NavPosLlh>().into_packet_bytes()), ("NavVelNed", UbxPacketRequest::request_for::<NavVelNed>().into_packet_bytes()), ("NavHpPosLlh", UbxPacketRequest::request_for::<NavHpPosLlh>().into_packet_bytes()), ("NavHpPosEcef", UbxPacketRequest::request_for::<NavHpPosEcef>().into_packet_bytes()), ("NavPvt", UbxPacketRequest::request_for::<NavPvt>().into_packet_bytes()), ("NavStatus", UbxPacketRequest::request_for::<NavStatus>().into_packet_bytes()), ("NavDop", UbxPacketRequest::request_for::<NavDop>().into_packet_bytes()), ("NavEoe", UbxPacketRequest::request_for::<NavEoe>().into_packet_bytes()), ("NavSolution", UbxPacketRequest::request_for::<NavSolution>().into_packet_bytes()), ("NavSatSvInfo", UbxPacketRequest::request_for::<NavSatSvInfo>().into_packet_bytes()), ("NavSat", UbxPacketRequest::request_for::<NavSat>().into_packet_bytes()), ("NavOdo", UbxPacketRequest::request_for::<NavOdo>().into_packet_bytes()), ("NavResetOdo", UbxPacketRequest::request_for::<NavResetOdo>().into_packet_bytes()), ("CfgOdo", UbxPacketRequest::request_for::<CfgOdo>().into_packet_bytes()), ("CfgItfm", UbxPacketRequest::request_for::<CfgItfm>().into_packet_bytes()), ("CfgInf", UbxPacketRequest::request_for::<CfgInf>().into_packet_bytes()), ("InfError", UbxPacketRequest::request_for::<InfError>().into_packet_bytes()), ("InfNotice", UbxPacketRequest::request_for::<InfNotice>().into_packet_bytes()), ("InfTest", UbxPacketRequest::request_for::<InfTest>().into_packet_bytes()), ("InfWarning", UbxPacketRequest::request_for::<InfWarning>().into_packet_bytes()), ("InfDebug", UbxPacketRequest::request_for::<InfDebug>().into_packet_bytes()), ("AidIni", UbxPacketRequest::request_for::<AidIni>().into_packet_bytes()), ("AlpSrv", UbxPacketRequest::request_for::<AlpSrv>().into_packet_bytes()), ("AckAck", UbxPacketRequest::request_for::<AckAck>().into_packet_bytes()), ("AckNak", UbxPacketRequest::request_for::<AckNak>().into_packet_bytes()), ("CfgRst", UbxPacketRequest::request_for::<CfgRst>().into_packet_bytes()), ("CfgAnt", UbxPacketRequest::request_for::<CfgAnt>().into_packet_bytes()), ("CfgTp5", UbxPacketRequest::request_for::<CfgTp5>().into_packet_bytes()), ("CfgTmode2", UbxPacketRequest::request_for::<CfgTmode2>().into_packet_bytes()), ("TimSvin", UbxPacketRequest::request_for::<TimSvin>().into_packet_bytes()), ("NavTimeLs", UbxPacketRequest::request_for::<NavTimeLs>().into_packet_bytes()), ("CfgTmode3", UbxPacketRequest::request_for::<CfgTmode3>().into_packet_bytes()), ("CfgValSet", UbxPacketRequest::request_for::<CfgValSet>().into_packet_bytes()), ("CfgPrtI2c", UbxPacketRequest::request_for::<CfgPrtI2c>().into_packet_bytes()), ("CfgPrtUart", UbxPacketRequest::request_for::<CfgPrtUart>().into_packet_bytes()), ("CfgPrtSpi", UbxPacketRequest::request_for::<CfgPrtSpi>().into_packet_bytes()), ("NavTimeUTC", UbxPacketRequest::request_for::<NavTimeUTC>().into_packet_bytes()), ("CfgRate", UbxPacketRequest::request_for::<CfgRate>().into_packet_bytes()), ("CfgMsgSinglePort", UbxPacketRequest::request_for::<CfgMsgSinglePort>().into_packet_bytes()), ("CfgMsgAllPorts", UbxPacketRequest::request_for::<CfgMsgAllPorts>().into_packet_bytes()), ("CfgNav5", UbxPacketRequest::request_for::<CfgNav5>().into_packet_bytes()), ("CfgNavX5", UbxPacketRequest::request_for::<CfgNavX5>().into_packet_bytes()), ("MgaAck", UbxPacketRequest::request_for::<MgaAck>().into_packet_bytes()), ("MgaGloEph", UbxPacketRequest::request_for::<MgaGloEph>().into_packet_bytes()), ("MgaGpsIono", UbxPacketRequest::request_for::<MgaGpsIono>().into_packet_bytes()), ("MgaGpsEph", UbxPacketRequest::request_for::<MgaGpsEph>().into_packet_bytes()), ("TimTp", UbxPacketRequest::request_for::<TimTp>().into_packet_bytes()), ("TimTm2", UbxPacketRequest::request_for::<TimTm2>().into_packet_bytes()), ("RxmRawx", UbxPacketRequest::request_for::<RxmRawx>().into_packet_bytes()), ("MonHw", UbxPacketRequest::request_for::<MonHw>().into_packet_bytes()), ("MonGnss", UbxPacketRequest::request_for::<MonGnss>().into_packet_bytes()), ("MonVer", UbxPacketRequest::request_for::<MonVer>().into_packet_bytes()), ("RxmRtcm", UbxPacketRequest::request_for::<RxmRtcm>().into_packet_bytes()), ("EsfMeas", UbxPacketRequest::request_for::<EsfMeas>().into_packet_bytes()), ("EsfRaw", UbxPacketRequest::request_for::<EsfRaw>().into_packet_bytes()), ("EsfIns", UbxPacketRequest::request_for::<EsfIns>().into_packet_bytes()), ("HnrAtt", UbxPacketRequest::request_for::<HnrAtt>().into_packet_bytes()), ("HnrIns", UbxPacketRequest::request_for::<HnrIns>().into_packet_bytes()), ("HnrPvt", UbxPacketRequest::request_for::<HnrPvt>().into_packet_bytes()), ("NavAtt", UbxPacketRequest::request_for::<NavAtt>().into_packet_bytes()), ("NavClock", UbxPacketRequest::request_for::<NavClock>().into_packet_bytes()), ("RxmSfrbx", UbxPacketRequest::request_for::<RxmSfrbx>().into_packet_bytes()), ("NavVelECEF", UbxPacketRequest::request_for::<NavVelECEF>().into_packet_bytes()), ("MgaGpsEPH", UbxPacketRequest::request_for::<MgaGpsEPH>().into_packet_bytes()), ("RxmRawxInfo", UbxPacketRequest::request_for::<RxmRawxInfo>().into_packet_bytes()), ("SecUniqId", UbxPacketRequest::request_for::<SecUniqId>().into_packet_bytes())] }
pub fn rate_single(r: u8) -> Vec<(&'static str, Vec<u8>)> { vec![("NavPosLlh", CfgMsgSinglePortBuilder::set_rate_for::<NavPosLlh>(r).into_packet_bytes().to_vec()), ("NavVelNed", CfgMsgSinglePortBuilder::set_rate_for::<NavVelNed>(r).into_packet_bytes().to_vec()), ("NavHpPosLlh", CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosLlh>(r).into_packet_bytes().to_vec()), ("NavHpPosEcef", CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosEcef>(r).into_packet_bytes().to_vec()), ("NavPvt", CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(r).into_packet_bytes().to_vec()), ("NavStatus", CfgMsgSinglePortBuilder::set_rate_for::<NavStatus>(r).into_packet_bytes().to_vec()), ("NavDop", CfgMsgSinglePortBuilder::set_rate_for::<NavDop>(r).into_packet_bytes().to_vec()), ("NavEoe", CfgMsgSinglePortBuilder::set_rate_for::<NavEoe>(r).into_packet_bytes().to_vec()), ("NavSolution", CfgMsgSinglePortBuilder::set_rate_for::<NavSolution>(r).into_packet_bytes().to_vec()), ("NavSatSvInfo", CfgMsgSinglePortBuilder::set_rate_for::<NavSatSvInfo>(r).into_packet_bytes().to_vec()), ("NavSat", CfgMsgSinglePortBuilder::set_rate_for::<NavSat>(r).into_packet_bytes().to_vec()), ("NavOdo", CfgMsgSinglePortBuilder::set_rate_for::<NavOdo>(r).into_packet_bytes().to_vec()), ("NavResetOdo", CfgMsgSinglePortBuilder::set_rate_for::<NavResetOdo>(r).into_packet_bytes().to_vec()), ("CfgOdo", CfgMsgSinglePortBuilder::set_rate_for::<CfgOdo>(r).into_packet_bytes().to_vec()), ("CfgItfm", CfgMsgSinglePortBuilder::set_rate_for::<CfgItfm>(r).into_packet_bytes().to_vec()), ("CfgInf", CfgMsgSinglePortBuilder::set_rate_for::<CfgInf>(r).into_packet_bytes().to_vec()), ("InfError", CfgMsgSinglePortBuilder::set_rate_for::<InfError>(r).into_packet_bytes().to_vec()), ("InfNotice", CfgMsgSinglePortBuilder::set_rate_for::<InfNotice>(r).into_packet_bytes().to_vec()), ("InfTest", CfgMsgSinglePortBuilder::set_rate_for::<InfTest>(r).into_packet_bytes().to_vec()), ("InfWarning", CfgMsgSinglePortBuilder::set_rate_for::<InfWarning>(r).into_packet_bytes().to_vec()), ("InfDebug", CfgMsgSinglePortBuilder::set_rate_for::<InfDebug>(r).into_packet_bytes().to_vec()), ("AidIni", CfgMsgSinglePortBuilder::set_rate_for::<AidIni>(r).into_packet_bytes().to_vec()), ("AlpSrv", CfgMsgSinglePortBuilder::set_rate_for::<AlpSrv>(r).into_packet_bytes().to_vec()), ("AckAck", CfgMsgSinglePortBuilder::set_rate_for::<AckAck>(r).into_packet_bytes().to_vec()), ("AckNak", CfgMsgSinglePortBuilder::set_rate_for::<AckNak>(r).into_packet_bytes().to_vec()), ("CfgRst", CfgMsgSinglePortBuilder::set_rate_for::<CfgRst>(r).into_packet_bytes().to_vec()), ("CfgAnt", CfgMsgSinglePortBuilder::set_rate_for::<CfgAnt>(r).into_packet_bytes().to_vec()), ("CfgTp5", CfgMsgSinglePortBuilder::set_rate_for::<CfgTp5>(r).into_packet_bytes().to_vec()), ("CfgTmode2", CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode2>(r).into_packet_bytes().to_vec()), ("TimSvin", CfgMsgSinglePortBuilder::set_rate_for::<TimSvin>(r).into_packet_bytes().to_vec()), ("NavTimeLs", CfgMsgSinglePortBuilder::set_rate_for::<NavTimeLs>(r).into_packet_bytes().to_vec()), ("CfgTmode3", CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode3>(r).into_packet_bytes().to_vec()), ("CfgValSet", CfgMsgSinglePortBuilder::set_rate_for::<CfgValSet>(r).into_packet_bytes().to_vec()), ("CfgPrtI2c", CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtI2c>(r).into_packet_bytes().to_vec()), ("CfgPrtUart", CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtUart>(r).into_packet_bytes().to_vec()), ("CfgPrtSpi", CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtSpi>(r).into_packet_bytes().to_vec()), ("NavTimeUTC", CfgMsgSinglePortBuilder::set_rate_for::<NavTimeUTC>(r).into_packet_bytes().to_vec()), ("CfgRate", CfgMsgSinglePortBuilder::set_rate_for::<CfgRate>(r).into_packet_bytes().to_vec()), ("CfgMsgSinglePort", CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgSinglePort>(r).into_packet_bytes().to_vec()), ("CfgMsgAllPorts", CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgAllPorts>(r).into_packet_bytes().to_vec()), ("CfgNav5", CfgMsgSinglePortBuilder::set_rate_for::<CfgNav5>(r).into_packet_bytes().to_vec()), ("CfgNavX5", CfgMsgSinglePortBuilder::set_rate_for::<CfgNavX5>(r).into_packet_bytes().to_vec()), ("MgaAck", CfgMsgSinglePortBuilder::set_rate_for::<MgaAck>(r).into_packet_bytes().to_vec()), ("MgaGloEph", CfgMsgSinglePortBuilder::set_rate_for::<MgaGloEph>(r).into_packet_bytes().to_vec()), ("MgaGpsIono", CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsIono>(r).into_packet_bytes().to_vec()), ("MgaGpsEph", CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEph>(r).into_packet_bytes().to_vec()), ("TimTp", CfgMsgSinglePortBuilder::set_rate_for::<TimTp>(r).into_packet_bytes().to_vec()), ("TimTm2", CfgMsgSinglePortBuilder::set_rate_for::<TimTm2>(r).into_packet_bytes().to_vec()), ("RxmRawx", CfgMsgSinglePortBuilder::set_rate_for::<RxmRawx>(r).into_packet_bytes().to_vec()), ("MonHw", CfgMsgSinglePortBuilder::set_rate_for::<MonHw>(r).into_packet_bytes().to_vec()), ("MonGnss", CfgMsgSinglePortBuilder::set_rate_for::<MonGnss>(r).into_packet_bytes().to_vec()), ("MonVer", CfgMsgSinglePortBuilder::set_rate_for::<MonVer>(r).into_packet_bytes().to_vec()), ("RxmRtcm", CfgMsgSinglePortBuilder::set_rate_for::<RxmRtcm>(r).into_packet_bytes().to_vec()), ("EsfMeas", CfgMsgSinglePortBuilder::set_rate_for::<EsfMeas>(r).into_packet_bytes().to_vec()), ("EsfRaw", CfgMsgSinglePortBuilder::set_rate_for::<EsfRaw>(r).into_packet_bytes().to_vec()), ("EsfIns", CfgMsgSinglePortBuilder::set_rate_for::<EsfIns>(r).into_packet_bytes().to_vec()), ("HnrAtt", CfgMsgSinglePortBuilder::set_rate_for::<HnrAtt>(r).into_packet_bytes().to_vec()), ("HnrIns", CfgMsgSinglePortBuilder::set_rate_for::<HnrIns>(r).into_packet_bytes().to_vec()), ("HnrPvt", CfgMsgSinglePortBuilder::set_rate_for::<HnrPvt>(r).into_packet_bytes().to_vec()), ("NavAtt", CfgMsgSinglePortBuilder::set_rate_for::<NavAtt>(r).into_packet_bytes().to_vec()), ("NavClock", CfgMsgSinglePortBuilder::set_rate_for::<NavClock>(r).into_packet_bytes().to_vec()), ("RxmSfrbx", CfgMsgSinglePortBuilder::set_rate_for::<RxmSfrbx>(r).into_packet_bytes().to_vec()), ("NavVelECEF", CfgMsgSinglePortBuilder::set_rate_for::<NavVelECEF>(r).into_packet_bytes().to_vec()), ("MgaGpsEPH", CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEPH>(r).into_packet_bytes().to_vec()), ("RxmRawxInfo", CfgMsgSinglePortBuilder::set_rate_for::<RxmRawxInfo>(r).into_packet_bytes().to_vec()), ("SecUniqId", CfgMsgSinglePortBuilder::set_rate_for::<SecUniqId>(r).into_packet_bytes().to_vec())] }
pub fn rate_all(r: [u8; 6]) -> Vec<(&'static str, Vec<u8>)> { vec![("NavPosLlh", CfgMsgAllPortsBuilder::set_rate_for::<NavPosLlh>(r).into_packet_bytes().to_vec()), ("NavVelNed", CfgMsgAllPortsBuilder::set_rate_for::<NavVelNed>(r).into_packet_bytes().to_vec()), ("NavHpPosLlh", CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosLlh>(r).into_packet_bytes().to_vec()), ("NavHpPosEcef", CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosEcef>(r).into_packet_bytes().to_vec()), ("NavPvt", CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>(r).into_packet_bytes().to_vec()), ("NavStatus", CfgMsgAllPortsBuilder::set_rate_for::<NavStatus>(r).into_packet_bytes().to_vec()), ("NavDop", CfgMsgAllPortsBuilder::set_rate_for::<NavDop>(r).into_packet_bytes().to_vec()), ("NavEoe", CfgMsgAllPortsBuilder::set_rate_for::<NavEoe>(r).into_packet_bytes().to_vec()), ("NavSolution", CfgMsgAllPortsBuilder::set_rate_for::<NavSolution>(r).into_packet_bytes().to_vec()), ("NavSatSvInfo", CfgMsgAllPortsBuilder::set_rate_for::<NavSatSvInfo>(r).into_packet_bytes().to_vec()), ("NavSat", CfgMsgAllPortsBuilder::set_rate_for::<NavSat>(r).into_packet_bytes().to_vec()), ("NavOdo", CfgMsgAllPortsBuilder::set_rate_for::<NavOdo>(r).into_packet_bytes().to_vec()), ("NavResetOdo", CfgMsgAllPortsBuilder::set_rate_for::<NavResetOdo>(r).into_packet_bytes().to_vec()), ("CfgOdo", CfgMsgAllPortsBuilder::set_rate_for::<CfgOdo>(r).into_packet_bytes().to_vec()), ("CfgItfm", CfgMsgAllPortsBuilder::set_rate_for::<CfgItfm>(r).into_packet_bytes().to_vec()), ("CfgInf", CfgMsgAllPortsBuilder::set_rate_for::<CfgInf>(r).into_packet_bytes().to_vec()), ("InfError", CfgMsgAllPortsBuilder::set_rate_for::<InfError>(r).into_packet_bytes().to_vec()), ("InfNotice", CfgMsgAllPortsBuilder::set_rate_for::<InfNotice>(r).into_packet_bytes().to_vec()), ("InfTest", CfgMsgAllPortsBuilder::set_rate_for::<InfTest>(r).into_packet_bytes().to_vec()), ("InfWarning", CfgMsgAllPortsBuilder::set_rate_for::<InfWarning>(r).into_packet_bytes().to_vec()), ("InfDebug", CfgMsgAllPortsBuilder::set_rate_for::<InfDebug>(r).into_packet_bytes().to_vec()), ("AidIni", CfgMsgAllPortsBuilder::set_rate_for::<AidIni>(r).into_packet_bytes().to_vec()), ("AlpSrv", CfgMsgAllPortsBuilder::set_rate_for::<AlpSrv>(r).into_packet_bytes().to_vec()), ("AckAck", CfgMsgAllPortsBuilder::set_rate_for::<AckAck>(r).into_packet_bytes().to_vec()), ("AckNak", CfgMsgAllPortsBuilder::set_rate_for::<AckNak>(r).into_packet_bytes().to_vec()), ("CfgRst", CfgMsgAllPortsBuilder::set_rate_for::<CfgRst>(r).into_packet_bytes().to_vec()), ("CfgAnt", CfgMsgAllPortsBuilder::set_rate_for::<CfgAnt>(r).into_packet_bytes().to_vec()), ("CfgTp5", CfgMsgAllPortsBuilder::set_rate_for::<CfgTp5>(r).into_packet_bytes().to_vec()), ("CfgTmode2", CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode2>(r).into_packet_bytes().to_vec()), ("TimSvin", CfgMsgAllPortsBuilder::set_rate_for::<TimSvin>(r).into_packet_bytes().to_vec()), ("NavTimeLs", CfgMsgAllPortsBuilder::set_rate_for::<NavTimeLs>(r).into_packet_bytes().to_vec()), ("CfgTmode3", CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode3>(r).into_packet_bytes().to_vec()), ("CfgValSet", CfgMsgAllPortsBuilder::set_rate_for::<CfgValSet>(r).into_packet_bytes().to_vec()), ("CfgPrtI2c", CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtI2c>(r).into_packet_bytes().to_vec()), ("CfgPrtUart", CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtUart>(r).into_packet_bytes().to_vec()), ("CfgPrtSpi", CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtSpi>(r).into_packet_bytes().to_vec()), ("NavTimeUTC", CfgMsgAllPortsBuilder::set_rate_for::<NavTimeUTC>(r).into_packet_bytes().to_vec()), ("CfgRate", CfgMsgAllPortsBuilder::set_rate_for::<CfgRate>(r).into_packet_bytes().to_vec()), ("CfgMsgSinglePort", CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgSinglePort>(r).into_packet_bytes().to_vec()), ("CfgMsgAllPorts", CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgAllPorts>(r).into_packet_bytes().to_vec()), ("CfgNav5", CfgMsgAllPortsBuilder::set_rate_for::<CfgNav5>(r).into_packet_bytes().to_vec()), ("CfgNavX5", CfgMsgAllPortsBuilder::set_rate_for::<CfgNavX5>(r).into_packet_bytes().to_vec()), ("MgaAck", CfgMsgAllPortsBuilder::set_rate_for::<MgaAck>(r).into_packet_bytes().to_vec()), ("MgaGloEph", CfgMsgAllPortsBuilder::set_rate_for::<MgaGloEph>(r).into_packet_bytes().to_vec()), ("MgaGpsIono", CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsIono>(r).into_packet_bytes().to_vec()), ("MgaGpsEph", CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEph>(r).into_packet_bytes().to_vec()), ("TimTp", CfgMsgAllPortsBuilder::set_rate_for::<TimTp>(r).into_packet_bytes().to_vec()), ("TimTm2", CfgMsgAllPortsBuilder::set_rate_for::<TimTm2>(r).into_packet_bytes().to_vec()), ("RxmRawx", CfgMsgAllPortsBuilder::set_rate_for::<RxmRawx>(r).into_packet_bytes().to_vec()), ("MonHw", CfgMsgAllPortsBuilder::set_rate_for::<MonHw>(r).into_packet_bytes().to_vec()), ("MonGnss", CfgMsgAllPortsBuilder::set_rate_for::<MonGnss>(r).into_packet_bytes().to_vec()), ("MonVer", CfgMsgAllPortsBuilder::set_rate_for::<MonVer>(r).into_packet_bytes().to_vec()), ("RxmRtcm", CfgMsgAllPortsBuilder::set_rate_for::<RxmRtcm>(r).into_packet_bytes().to_vec()), ("EsfMeas", CfgMsgAllPortsBuilder::set_rate_for::<EsfMeas>(r).into_packet_bytes().to_vec()), ("EsfRaw", CfgMsgAllPortsBuilder::set_rate_for::<EsfRaw>(r).into_packet_bytes().to_vec()), ("EsfIns", CfgMsgAllPortsBuilder::set_rate_for::<EsfIns>(r).into_packet_bytes().to_vec()), ("HnrAtt", CfgMsgAllPortsBuilder::set_rate_for::<HnrAtt>(r).into_packet_bytes().to_vec()), ("HnrIns", CfgMsgAllPortsBuilder::set_rate_for::<HnrIns>(r).into_packet_bytes().to_vec()), ("HnrPvt", CfgMsgAllPortsBuilder::set_rate_for::<HnrPvt>(r).into_packet_bytes().to_vec()), ("NavAtt", CfgMsgAllPortsBuilder::set_rate_for::<NavAtt>(r).into_packet_bytes().to_vec()), ("NavClock", CfgMsgAllPortsBuilder::set_rate_for::<NavClock>(r).into_packet_bytes().to_vec()), ("RxmSfrbx", CfgMsgAllPortsBuilder::set_rate_for::<RxmSfrbx>(r).into_packet_bytes().to_vec()), ("NavVelECEF", CfgMsgAllPortsBuilder::set_rate_for::<NavVelECEF>(r).into_packet_bytes().to_vec()), ("MgaGpsEPH", CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEPH>(r).into_packet_bytes().to_vec()), ("RxmRawxInfo", CfgMsgAllPortsBuilder::set_rate_for::<RxmRawxInfo>(r).into_packet_bytes().to_vec()), ("SecUniqId", CfgMsgAllPortsBuilder::set_rate_for::<SecUniqId>(r).into_packet_bytes().to_vec())] }
pub fn flag_consts() -> Vec<(&'static str, &'static str, Option<u64>)> { vec![
  ("NavHpPosEcefFlags", "INVALID_ECEF", NavHpPosEcefFlags::from_name("INVALID_ECEF").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED1", NavHpPosEcefFlags::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED2", NavHpPosEcefFlags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED3", NavHpPosEcefFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED4", NavHpPosEcefFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED5", NavHpPosEcefFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED6", NavHpPosEcefFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("NavHpPosEcefFlags", "RESERVED7", NavHpPosEcefFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "GPS_FIX_OK", NavPvtFlags::from_name("GPS_FIX_OK").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "DIFF_SOLN", NavPvtFlags::from_name("DIFF_SOLN").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "HEAD_VEH_VALID", NavPvtFlags::from_name("HEAD_VEH_VALID").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "CARR_SOLN_FLOAT", NavPvtFlags::from_name("CARR_SOLN_FLOAT").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "CARR_SOLN_FIXED", NavPvtFlags::from_name("CARR_SOLN_FIXED").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "RESERVED2", NavPvtFlags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "RESERVED3", NavPvtFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("NavPvtFlags", "RESERVED4", NavPvtFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "CONFIRMED_AVAI", NavPvtFlags2::from_name("CONFIRMED_AVAI").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "CONFIRMED_DATE", NavPvtFlags2::from_name("CONFIRMED_DATE").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "CONFIRMED_TIME", NavPvtFlags2::from_name("CONFIRMED_TIME").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "RESERVED0", NavPvtFlags2::from_name("RESERVED0").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "RESERVED1", NavPvtFlags2::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "RESERVED2", NavPvtFlags2::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "RESERVED3", NavPvtFlags2::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("NavPvtFlags2", "RESERVED4", NavPvtFlags2::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "GPS_FIX_OK", NavStatusFlags::from_name("GPS_FIX_OK").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "DIFF_SOLN", NavStatusFlags::from_name("DIFF_SOLN").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "WKN_SET", NavStatusFlags::from_name("WKN_SET").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "TOW_SET", NavStatusFlags::from_name("TOW_SET").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "RESERVED4", NavStatusFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "RESERVED5", NavStatusFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "RESERVED6", NavStatusFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("NavStatusFlags", "RESERVED7", NavStatusFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "USE_ODO", OdoCogFilterFlags::from_name("USE_ODO").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "USE_COG", OdoCogFilterFlags::from_name("USE_COG").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "OUT_LP_VEL", OdoCogFilterFlags::from_name("OUT_LP_VEL").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "OUT_LP_COG", OdoCogFilterFlags::from_name("OUT_LP_COG").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "RESERVED4", OdoCogFilterFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "RESERVED5", OdoCogFilterFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "RESERVED6", OdoCogFilterFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("OdoCogFilterFlags", "RESERVED7", OdoCogFilterFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("CfgInfMask", "ERROR", CfgInfMask::from_name("ERROR").map(|x| x.bits() as u64)),
  ("CfgInfMask", "WARNING", CfgInfMask::from_name("WARNING").map(|x| x.bits() as u64)),
  ("CfgInfMask", "NOTICE", CfgInfMask::from_name("NOTICE").map(|x| x.bits() as u64)),
  ("CfgInfMask", "TEST", CfgInfMask::from_name("TEST").map(|x| x.bits() as u64)),
  ("CfgInfMask", "DEBUG", CfgInfMask::from_name("DEBUG").map(|x| x.bits() as u64)),
  ("CfgInfMask", "RESERVED5", CfgInfMask::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgInfMask", "RESERVED6", CfgInfMask::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("CfgInfMask", "RESERVED7", CfgInfMask::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("AntFlags", "SVCS", AntFlags::from_name("SVCS").map(|x| x.bits() as u64)),
  ("AntFlags", "SCD", AntFlags::from_name("SCD").map(|x| x.bits() as u64)),
  ("AntFlags", "OCD", AntFlags::from_name("OCD").map(|x| x.bits() as u64)),
  ("AntFlags", "PDWN_ON_SCD", AntFlags::from_name("PDWN_ON_SCD").map(|x| x.bits() as u64)),
  ("AntFlags", "RECOVERY", AntFlags::from_name("RECOVERY").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED5", AntFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED6", AntFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED7", AntFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED8", AntFlags::from_name("RESERVED8").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED9", AntFlags::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED10", AntFlags::from_name("RESERVED10").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED11", AntFlags::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED12", AntFlags::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED13", AntFlags::from_name("RESERVED13").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED14", AntFlags::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("AntFlags", "RESERVED15", AntFlags::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "LLA", CfgTmode2Flags::from_name("LLA").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "ALT_INVALID", CfgTmode2Flags::from_name("ALT_INVALID").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED2", CfgTmode2Flags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED3", CfgTmode2Flags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED4", CfgTmode2Flags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED5", CfgTmode2Flags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED6", CfgTmode2Flags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED7", CfgTmode2Flags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED8", CfgTmode2Flags::from_name("RESERVED8").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED9", CfgTmode2Flags::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED10", CfgTmode2Flags::from_name("RESERVED10").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED11", CfgTmode2Flags::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED12", CfgTmode2Flags::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED13", CfgTmode2Flags::from_name("RESERVED13").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED14", CfgTmode2Flags::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("CfgTmode2Flags", "RESERVED15", CfgTmode2Flags::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "VALID_CURR_LS", NavTimeLsFlags::from_name("VALID_CURR_LS").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "VALID_TIME_TO_LS_EVENT", NavTimeLsFlags::from_name("VALID_TIME_TO_LS_EVENT").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "RESERVED2", NavTimeLsFlags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "RESERVED3", NavTimeLsFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "RESERVED4", NavTimeLsFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "RESERVED5", NavTimeLsFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "RESERVED6", NavTimeLsFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("NavTimeLsFlags", "RESERVED7", NavTimeLsFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "DISABLED", CfgTmode3RcvrMode::from_name("DISABLED").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "SURVEY_IN", CfgTmode3RcvrMode::from_name("SURVEY_IN").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "FIXED_MODE", CfgTmode3RcvrMode::from_name("FIXED_MODE").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "RESERVED3", CfgTmode3RcvrMode::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "RESERVED4", CfgTmode3RcvrMode::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "RESERVED5", CfgTmode3RcvrMode::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "RESERVED6", CfgTmode3RcvrMode::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("CfgTmode3RcvrMode", "RESERVED7", CfgTmode3RcvrMode::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "ACTIVE", CfgTp5Flags::from_name("ACTIVE").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "LOCK_GNSS_FREQ", CfgTp5Flags::from_name("LOCK_GNSS_FREQ").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "LOCKED_OTHER_SET", CfgTp5Flags::from_name("LOCKED_OTHER_SET").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "IS_FREQ", CfgTp5Flags::from_name("IS_FREQ").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "IS_LENGTH", CfgTp5Flags::from_name("IS_LENGTH").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "ALIGN_TO_TOW", CfgTp5Flags::from_name("ALIGN_TO_TOW").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "POLARITY", CfgTp5Flags::from_name("POLARITY").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "UTC_TIME_GRID", CfgTp5Flags::from_name("UTC_TIME_GRID").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "GPS_TIME_GRID", CfgTp5Flags::from_name("GPS_TIME_GRID").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "GLO_TIME_GRID", CfgTp5Flags::from_name("GLO_TIME_GRID").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "BDS_TIME_GRID", CfgTp5Flags::from_name("BDS_TIME_GRID").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "GAL_TIME_GRID", CfgTp5Flags::from_name("GAL_TIME_GRID").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "SYNC_MODE_0", CfgTp5Flags::from_name("SYNC_MODE_0").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "SYNC_MODE_1", CfgTp5Flags::from_name("SYNC_MODE_1").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED14", CfgTp5Flags::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED15", CfgTp5Flags::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED16", CfgTp5Flags::from_name("RESERVED16").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED17", CfgTp5Flags::from_name("RESERVED17").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED18", CfgTp5Flags::from_name("RESERVED18").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED19", CfgTp5Flags::from_name("RESERVED19").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED20", CfgTp5Flags::from_name("RESERVED20").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED21", CfgTp5Flags::from_name("RESERVED21").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED22", CfgTp5Flags::from_name("RESERVED22").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED23", CfgTp5Flags::from_name("RESERVED23").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED24", CfgTp5Flags::from_name("RESERVED24").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED25", CfgTp5Flags::from_name("RESERVED25").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED26", CfgTp5Flags::from_name("RESERVED26").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED27", CfgTp5Flags::from_name("RESERVED27").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED28", CfgTp5Flags::from_name("RESERVED28").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED29", CfgTp5Flags::from_name("RESERVED29").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED30", CfgTp5Flags::from_name("RESERVED30").map(|x| x.bits() as u64)),
  ("CfgTp5Flags", "RESERVED31", CfgTp5Flags::from_name("RESERVED31").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "LLA", CfgTmode3Flags::from_name("LLA").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED1", CfgTmode3Flags::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED2", CfgTmode3Flags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED3", CfgTmode3Flags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED4", CfgTmode3Flags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED5", CfgTmode3Flags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED6", CfgTmode3Flags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("CfgTmode3Flags", "RESERVED7", CfgTmode3Flags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("NavBbrMask", "EPHEMERIS", NavBbrMask::from_name("EPHEMERIS").map(|x| x.bits() as u64)),
  ("NavBbrMask", "ALMANACH", NavBbrMask::from_name("ALMANACH").map(|x| x.bits() as u64)),
  ("NavBbrMask", "HEALTH", NavBbrMask::from_name("HEALTH").map(|x| x.bits() as u64)),
  ("NavBbrMask", "KLOBUCHARD", NavBbrMask::from_name("KLOBUCHARD").map(|x| x.bits() as u64)),
  ("NavBbrMask", "POSITION", NavBbrMask::from_name("POSITION").map(|x| x.bits() as u64)),
  ("NavBbrMask", "CLOCK_DRIFT", NavBbrMask::from_name("CLOCK_DRIFT").map(|x| x.bits() as u64)),
  ("NavBbrMask", "OSCILATOR_PARAMETER", NavBbrMask::from_name("OSCILATOR_PARAMETER").map(|x| x.bits() as u64)),
  ("NavBbrMask", "UTC_CORRECTION_PARAMETERS", NavBbrMask::from_name("UTC_CORRECTION_PARAMETERS").map(|x| x.bits() as u64)),
  ("NavBbrMask", "RTC", NavBbrMask::from_name("RTC").map(|x| x.bits() as u64)),
  ("NavBbrMask", "SFDR_PARAMETERS", NavBbrMask::from_name("SFDR_PARAMETERS").map(|x| x.bits() as u64)),
  ("NavBbrMask", "SFDR_VEHICLE_MONITORING_PARAMETERS", NavBbrMask::from_name("SFDR_VEHICLE_MONITORING_PARAMETERS").map(|x| x.bits() as u64)),
  ("NavBbrMask", "TCT_PARAMETERS", NavBbrMask::from_name("TCT_PARAMETERS").map(|x| x.bits() as u64)),
  ("NavBbrMask", "AUTONOMOUS_ORBIT_PARAMETERS", NavBbrMask::from_name("AUTONOMOUS_ORBIT_PARAMETERS").map(|x| x.bits() as u64)),
  ("NavBbrMask", "RESERVED9", NavBbrMask::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("NavBbrMask", "RESERVED10", NavBbrMask::from_name("RESERVED10").map(|x| x.bits() as u64)),
  ("NavBbrMask", "RESERVED14", NavBbrMask::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("CfgLayer", "RAM", CfgLayer::from_name("RAM").map(|x| x.bits() as u64)),
  ("CfgLayer", "BBR", CfgLayer::from_name("BBR").map(|x| x.bits() as u64)),
  ("CfgLayer", "FLASH", CfgLayer::from_name("FLASH").map(|x| x.bits() as u64)),
  ("CfgLayer", "RESERVED3", CfgLayer::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("CfgLayer", "RESERVED4", CfgLayer::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("CfgLayer", "RESERVED5", CfgLayer::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgLayer", "RESERVED6", CfgLayer::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("CfgLayer", "RESERVED7", CfgLayer::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("InProtoMask", "UBLOX", InProtoMask::from_name("UBLOX").map(|x| x.bits() as u64)),
  ("InProtoMask", "NMEA", InProtoMask::from_name("NMEA").map(|x| x.bits() as u64)),
  ("InProtoMask", "RTCM", InProtoMask::from_name("RTCM").map(|x| x.bits() as u64)),
  ("InProtoMask", "RTCM3", InProtoMask::from_name("RTCM3").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED3", InProtoMask::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED4", InProtoMask::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED6", InProtoMask::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED7", InProtoMask::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED8", InProtoMask::from_name("RESERVED8").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED9", InProtoMask::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED10", InProtoMask::from_name("RESERVED10").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED11", InProtoMask::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED12", InProtoMask::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED13", InProtoMask::from_name("RESERVED13").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED14", InProtoMask::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("InProtoMask", "RESERVED15", InProtoMask::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("OutProtoMask", "UBLOX", OutProtoMask::from_name("UBLOX").map(|x| x.bits() as u64)),
  ("OutProtoMask", "NMEA", OutProtoMask::from_name("NMEA").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RTCM3", OutProtoMask::from_name("RTCM3").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED2", OutProtoMask::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED3", OutProtoMask::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED4", OutProtoMask::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED6", OutProtoMask::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED7", OutProtoMask::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED8", OutProtoMask::from_name("RESERVED8").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED9", OutProtoMask::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED10", OutProtoMask::from_name("RESERVED10").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED11", OutProtoMask::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED12", OutProtoMask::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED13", OutProtoMask::from_name("RESERVED13").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED14", OutProtoMask::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("OutProtoMask", "RESERVED15", OutProtoMask::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "VALID_TOW", NavTimeUtcFlags::from_name("VALID_TOW").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "VALID_WKN", NavTimeUtcFlags::from_name("VALID_WKN").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "VALID_UTC", NavTimeUtcFlags::from_name("VALID_UTC").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "RESERVED3", NavTimeUtcFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "RESERVED4", NavTimeUtcFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "RESERVED5", NavTimeUtcFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "RESERVED6", NavTimeUtcFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("NavTimeUtcFlags", "RESERVED7", NavTimeUtcFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "DYN", CfgNav5Params::from_name("DYN").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "MIN_EL", CfgNav5Params::from_name("MIN_EL").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "POS_FIX_MODE", CfgNav5Params::from_name("POS_FIX_MODE").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "DR_LIM", CfgNav5Params::from_name("DR_LIM").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "POS_MASK_APPLY", CfgNav5Params::from_name("POS_MASK_APPLY").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "TIME_MASK", CfgNav5Params::from_name("TIME_MASK").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "STATIC_HOLD_MASK", CfgNav5Params::from_name("STATIC_HOLD_MASK").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "DGPS_MASK", CfgNav5Params::from_name("DGPS_MASK").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "CNO_THRESHOLD", CfgNav5Params::from_name("CNO_THRESHOLD").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "UTC", CfgNav5Params::from_name("UTC").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "RESERVED9", CfgNav5Params::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "RESERVED11", CfgNav5Params::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "RESERVED12", CfgNav5Params::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "RESERVED13", CfgNav5Params::from_name("RESERVED13").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "RESERVED14", CfgNav5Params::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("CfgNav5Params", "RESERVED15", CfgNav5Params::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "MIN_MAX", CfgNavX5Params1::from_name("MIN_MAX").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "MIN_CNO", CfgNavX5Params1::from_name("MIN_CNO").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "INITIAL_3D_FIX", CfgNavX5Params1::from_name("INITIAL_3D_FIX").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "WKN_ROLL", CfgNavX5Params1::from_name("WKN_ROLL").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "AID_ACK", CfgNavX5Params1::from_name("AID_ACK").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "USE_PPP", CfgNavX5Params1::from_name("USE_PPP").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "AOP_CFG", CfgNavX5Params1::from_name("AOP_CFG").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED0", CfgNavX5Params1::from_name("RESERVED0").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED1", CfgNavX5Params1::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED4", CfgNavX5Params1::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED5", CfgNavX5Params1::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED7", CfgNavX5Params1::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED8", CfgNavX5Params1::from_name("RESERVED8").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED11", CfgNavX5Params1::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED12", CfgNavX5Params1::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("CfgNavX5Params1", "RESERVED15", CfgNavX5Params1::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "USE_ADR", CfgNavX5Params2::from_name("USE_ADR").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "USE_SIG_ATTEN_COMP", CfgNavX5Params2::from_name("USE_SIG_ATTEN_COMP").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED0", CfgNavX5Params2::from_name("RESERVED0").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED1", CfgNavX5Params2::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED2", CfgNavX5Params2::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED3", CfgNavX5Params2::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED4", CfgNavX5Params2::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED5", CfgNavX5Params2::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED8", CfgNavX5Params2::from_name("RESERVED8").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED9", CfgNavX5Params2::from_name("RESERVED9").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED10", CfgNavX5Params2::from_name("RESERVED10").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED11", CfgNavX5Params2::from_name("RESERVED11").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED12", CfgNavX5Params2::from_name("RESERVED12").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED13", CfgNavX5Params2::from_name("RESERVED13").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED14", CfgNavX5Params2::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED15", CfgNavX5Params2::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED16", CfgNavX5Params2::from_name("RESERVED16").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED17", CfgNavX5Params2::from_name("RESERVED17").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED18", CfgNavX5Params2::from_name("RESERVED18").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED19", CfgNavX5Params2::from_name("RESERVED19").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED20", CfgNavX5Params2::from_name("RESERVED20").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED21", CfgNavX5Params2::from_name("RESERVED21").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED22", CfgNavX5Params2::from_name("RESERVED22").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED23", CfgNavX5Params2::from_name("RESERVED23").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED24", CfgNavX5Params2::from_name("RESERVED24").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED25", CfgNavX5Params2::from_name("RESERVED25").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED26", CfgNavX5Params2::from_name("RESERVED26").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED27", CfgNavX5Params2::from_name("RESERVED27").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED28", CfgNavX5Params2::from_name("RESERVED28").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED29", CfgNavX5Params2::from_name("RESERVED29").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED30", CfgNavX5Params2::from_name("RESERVED30").map(|x| x.bits() as u64)),
  ("CfgNavX5Params2", "RESERVED31", CfgNavX5Params2::from_name("RESERVED31").map(|x| x.bits() as u64)),
  ("RecStatFlags", "LEAP_SEC", RecStatFlags::from_name("LEAP_SEC").map(|x| x.bits() as u64)),
  ("RecStatFlags", "CLK_RESET", RecStatFlags::from_name("CLK_RESET").map(|x| x.bits() as u64)),
  ("RecStatFlags", "RESERVED2", RecStatFlags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("RecStatFlags", "RESERVED3", RecStatFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("RecStatFlags", "RESERVED4", RecStatFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("RecStatFlags", "RESERVED5", RecStatFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("RecStatFlags", "RESERVED6", RecStatFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("RecStatFlags", "RESERVED7", RecStatFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "GPS", MonGnssConstellMask::from_name("GPS").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "GLO", MonGnssConstellMask::from_name("GLO").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "BDC", MonGnssConstellMask::from_name("BDC").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "GAL", MonGnssConstellMask::from_name("GAL").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "RESERVED4", MonGnssConstellMask::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "RESERVED5", MonGnssConstellMask::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "RESERVED6", MonGnssConstellMask::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("MonGnssConstellMask", "RESERVED7", MonGnssConstellMask::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "VERSION", EsfInsBitFlags::from_name("VERSION").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "X_ANG_RATE_VALID", EsfInsBitFlags::from_name("X_ANG_RATE_VALID").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "Y_ANG_RATE_VALID", EsfInsBitFlags::from_name("Y_ANG_RATE_VALID").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "Z_ANG_RATE_VALID", EsfInsBitFlags::from_name("Z_ANG_RATE_VALID").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "X_ACCEL_VALID", EsfInsBitFlags::from_name("X_ACCEL_VALID").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "Y_ACCEL_VALID", EsfInsBitFlags::from_name("Y_ACCEL_VALID").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "Z_ACCEL_VALID", EsfInsBitFlags::from_name("Z_ACCEL_VALID").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED1", EsfInsBitFlags::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED2", EsfInsBitFlags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED3", EsfInsBitFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED4", EsfInsBitFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED5", EsfInsBitFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED6", EsfInsBitFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED7", EsfInsBitFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED14", EsfInsBitFlags::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED15", EsfInsBitFlags::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED16", EsfInsBitFlags::from_name("RESERVED16").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED17", EsfInsBitFlags::from_name("RESERVED17").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED18", EsfInsBitFlags::from_name("RESERVED18").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED19", EsfInsBitFlags::from_name("RESERVED19").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED20", EsfInsBitFlags::from_name("RESERVED20").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED21", EsfInsBitFlags::from_name("RESERVED21").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED22", EsfInsBitFlags::from_name("RESERVED22").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED23", EsfInsBitFlags::from_name("RESERVED23").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED24", EsfInsBitFlags::from_name("RESERVED24").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED25", EsfInsBitFlags::from_name("RESERVED25").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED26", EsfInsBitFlags::from_name("RESERVED26").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED27", EsfInsBitFlags::from_name("RESERVED27").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED28", EsfInsBitFlags::from_name("RESERVED28").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED29", EsfInsBitFlags::from_name("RESERVED29").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED30", EsfInsBitFlags::from_name("RESERVED30").map(|x| x.bits() as u64)),
  ("EsfInsBitFlags", "RESERVED31", EsfInsBitFlags::from_name("RESERVED31").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "VERSION", HnrInsBitFlags::from_name("VERSION").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "X_ANG_RATE_VALID", HnrInsBitFlags::from_name("X_ANG_RATE_VALID").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "Y_ANG_RATE_VALID", HnrInsBitFlags::from_name("Y_ANG_RATE_VALID").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "Z_ANG_RATE_VALID", HnrInsBitFlags::from_name("Z_ANG_RATE_VALID").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "X_ACCEL_VALID", HnrInsBitFlags::from_name("X_ACCEL_VALID").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "Y_ACCEL_VALID", HnrInsBitFlags::from_name("Y_ACCEL_VALID").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "Z_ACCEL_VALID", HnrInsBitFlags::from_name("Z_ACCEL_VALID").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED1", HnrInsBitFlags::from_name("RESERVED1").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED2", HnrInsBitFlags::from_name("RESERVED2").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED3", HnrInsBitFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED4", HnrInsBitFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED5", HnrInsBitFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED6", HnrInsBitFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED7", HnrInsBitFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED14", HnrInsBitFlags::from_name("RESERVED14").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED15", HnrInsBitFlags::from_name("RESERVED15").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED16", HnrInsBitFlags::from_name("RESERVED16").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED17", HnrInsBitFlags::from_name("RESERVED17").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED18", HnrInsBitFlags::from_name("RESERVED18").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED19", HnrInsBitFlags::from_name("RESERVED19").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED20", HnrInsBitFlags::from_name("RESERVED20").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED21", HnrInsBitFlags::from_name("RESERVED21").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED22", HnrInsBitFlags::from_name("RESERVED22").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED23", HnrInsBitFlags::from_name("RESERVED23").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED24", HnrInsBitFlags::from_name("RESERVED24").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED25", HnrInsBitFlags::from_name("RESERVED25").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED26", HnrInsBitFlags::from_name("RESERVED26").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED27", HnrInsBitFlags::from_name("RESERVED27").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED28", HnrInsBitFlags::from_name("RESERVED28").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED29", HnrInsBitFlags::from_name("RESERVED29").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED30", HnrInsBitFlags::from_name("RESERVED30").map(|x| x.bits() as u64)),
  ("HnrInsBitFlags", "RESERVED31", HnrInsBitFlags::from_name("RESERVED31").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "GPS_FIX_OK", HnrPvtFlags::from_name("GPS_FIX_OK").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "DIFF_SOLN", HnrPvtFlags::from_name("DIFF_SOLN").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "WKN_SET", HnrPvtFlags::from_name("WKN_SET").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "TOW_SET", HnrPvtFlags::from_name("TOW_SET").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "HEAD_VEH_VALID", HnrPvtFlags::from_name("HEAD_VEH_VALID").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "RESERVED5", HnrPvtFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "RESERVED6", HnrPvtFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("HnrPvtFlags", "RESERVED7", HnrPvtFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "VALID_DATE", HnrPvtValidFlags::from_name("VALID_DATE").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "VALID_TIME", HnrPvtValidFlags::from_name("VALID_TIME").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "FULLY_RESOLVED", HnrPvtValidFlags::from_name("FULLY_RESOLVED").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "RESERVED3", HnrPvtValidFlags::from_name("RESERVED3").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "RESERVED4", HnrPvtValidFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "RESERVED5", HnrPvtValidFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "RESERVED6", HnrPvtValidFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("HnrPvtValidFlags", "RESERVED7", HnrPvtValidFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("StdevFlags", "STD_1", StdevFlags::from_name("STD_1").map(|x| x.bits() as u64)),
  ("StdevFlags", "STD_2", StdevFlags::from_name("STD_2").map(|x| x.bits() as u64)),
  ("StdevFlags", "STD_3", StdevFlags::from_name("STD_3").map(|x| x.bits() as u64)),
  ("StdevFlags", "STD_4", StdevFlags::from_name("STD_4").map(|x| x.bits() as u64)),
  ("StdevFlags", "RESERVED4", StdevFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("StdevFlags", "RESERVED5", StdevFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("StdevFlags", "RESERVED6", StdevFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("StdevFlags", "RESERVED7", StdevFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "PR_VALID", TrkStatFlags::from_name("PR_VALID").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "CP_VALID", TrkStatFlags::from_name("CP_VALID").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "HALF_CYCLE", TrkStatFlags::from_name("HALF_CYCLE").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "SUB_HALF_CYCLE", TrkStatFlags::from_name("SUB_HALF_CYCLE").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "RESERVED4", TrkStatFlags::from_name("RESERVED4").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "RESERVED5", TrkStatFlags::from_name("RESERVED5").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "RESERVED6", TrkStatFlags::from_name("RESERVED6").map(|x| x.bits() as u64)),
  ("TrkStatFlags", "RESERVED7", TrkStatFlags::from_name("RESERVED7").map(|x| x.bits() as u64)),
] }
pub fn flag_trunc(name: &str, raw: u64) -> Option<u64> { Some(match name {
  "NavHpPosEcefFlags" => NavHpPosEcefFlags::from_bits_truncate(raw as u8).bits() as u64,
  "NavPvtFlags" => NavPvtFlags::from_bits_truncate(raw as u8).bits() as u64,
  "NavPvtFlags2" => NavPvtFlags2::from_bits_truncate(raw as u8).bits() as u64,
  "NavStatusFlags" => NavStatusFlags::from_bits_truncate(raw as u8).bits() as u64,
  "OdoCogFilterFlags" => OdoCogFilterFlags::from_bits_truncate(raw as u8).bits() as u64,
  "CfgInfMask" => CfgInfMask::from_bits_truncate(raw as u8).bits() as u64,
  "AntFlags" => AntFlags::from_bits_truncate(raw as u16).bits() as u64,
  "CfgTmode2Flags" => CfgTmode2Flags::from_bits_truncate(raw as u16).bits() as u64,
  "NavTimeLsFlags" => NavTimeLsFlags::from_bits_truncate(raw as u8).bits() as u64,
  "CfgTmode3RcvrMode" => CfgTmode3RcvrMode::from_bits_truncate(raw as u8).bits() as u64,
  "CfgTp5Flags" => CfgTp5Flags::from_bits_truncate(raw as u32).bits() as u64,
  "CfgTmode3Flags" => CfgTmode3Flags::from_bits_truncate(raw as u8).bits() as u64,
  "NavBbrMask" => NavBbrMask::from_bits_truncate(raw as u16).bits() as u64,
  "CfgLayer" => CfgLayer::from_bits_truncate(raw as u8).bits() as u64,
  "InProtoMask" => InProtoMask::from_bits_truncate(raw as u16).bits() as u64,
  "OutProtoMask" => OutProtoMask::from_bits_truncate(raw as u16).bits() as u64,
  "NavTimeUtcFlags" => NavTimeUtcFlags::from_bits_truncate(raw as u8).bits() as u64,
  "CfgNav5Params" => CfgNav5Params::from_bits_truncate(raw as u16).bits() as u64,
  "CfgNavX5Params1" => CfgNavX5Params1::from_bits_truncate(raw as u16).bits() as u64,
  "CfgNavX5Params2" => CfgNavX5Params2::from_bits_truncate(raw as u32).bits() as u64,
  "RecStatFlags" => RecStatFlags::from_bits_truncate(raw as u8).bits() as u64,
  "MonGnssConstellMask" => MonGnssConstellMask::from_bits_truncate(raw as u8).bits() as u64,
  "EsfInsBitFlags" => EsfInsBitFlags::from_bits_truncate(raw as u32).bits() as u64,
  "HnrInsBitFlags" => HnrInsBitFlags::from_bits_truncate(raw as u32).bits() as u64,
  "HnrPvtFlags" => HnrPvtFlags::from_bits_truncate(raw as u8).bits() as u64,
  "HnrPvtValidFlags" => HnrPvtValidFlags::from_bits_truncate(raw as u8).bits() as u64,
  "StdevFlags" => StdevFlags::from_bits_truncate(raw as u8).bits() as u64,
  "TrkStatFlags" => TrkStatFlags::from_bits_truncate(raw as u8).bits() as u64,
  _ => return None }) }
pub fn enum_consts() -> Vec<(&'static str, &'static str, u8, String)> { vec![
  ("GpsFix", "NoFix", GpsFix::NoFix as u8, format!("{:?}", GpsFix::NoFix)),
  ("GpsFix", "DeadReckoningOnly", GpsFix::DeadReckoningOnly as u8, format!("{:?}", GpsFix::DeadReckoningOnly)),
  ("GpsFix", "Fix2D", GpsFix::Fix2D as u8, format!("{:?}", GpsFix::Fix2D)),
  ("GpsFix", "Fix3D", GpsFix::Fix3D as u8, format!("{:?}", GpsFix::Fix3D)),
  ("GpsFix", "GPSPlusDeadReckoning", GpsFix::GPSPlusDeadReckoning as u8, format!("{:?}", GpsFix::GPSPlusDeadReckoning)),
  ("GpsFix", "TimeOnlyFix", GpsFix::TimeOnlyFix as u8, format!("{:?}", GpsFix::TimeOnlyFix)),
  ("NavStatusFlags2", "Acquisition", NavStatusFlags2::Acquisition as u8, format!("{:?}", NavStatusFlags2::Acquisition)),
  ("NavStatusFlags2", "Tracking", NavStatusFlags2::Tracking as u8, format!("{:?}", NavStatusFlags2::Tracking)),
  ("NavStatusFlags2", "PowerOptimizedTracking", NavStatusFlags2::PowerOptimizedTracking as u8, format!("{:?}", NavStatusFlags2::PowerOptimizedTracking)),
  ("NavStatusFlags2", "Inactive", NavStatusFlags2::Inactive as u8, format!("{:?}", NavStatusFlags2::Inactive)),
  ("OdoProfile", "Running", OdoProfile::Running as u8, format!("{:?}", OdoProfile::Running)),
  ("OdoProfile", "Cycling", OdoProfile::Cycling as u8, format!("{:?}", OdoProfile::Cycling)),
  ("OdoProfile", "Swimming", OdoProfile::Swimming as u8, format!("{:?}", OdoProfile::Swimming)),
  ("OdoProfile", "Car", OdoProfile::Car as u8, format!("{:?}", OdoProfile::Car)),
  ("OdoProfile", "Custom", OdoProfile::Custom as u8, format!("{:?}", OdoProfile::Custom)),
  ("CfgItfmAntennaSettings", "Unknown", CfgItfmAntennaSettings::Unknown as u8, format!("{:?}", CfgItfmAntennaSettings::Unknown)),
  ("CfgItfmAntennaSettings", "Active", CfgItfmAntennaSettings::Active as u8, format!("{:?}", CfgItfmAntennaSettings::Active)),
  ("CfgItfmAntennaSettings", "Passive", CfgItfmAntennaSettings::Passive as u8, format!("{:?}", CfgItfmAntennaSettings::Passive)),
  ("CfgTp5TimePulseMode", "TimePulse", CfgTp5TimePulseMode::TimePulse as u8, format!("{:?}", CfgTp5TimePulseMode::TimePulse)),
  ("CfgTp5TimePulseMode", "TimePulse2", CfgTp5TimePulseMode::TimePulse2 as u8, format!("{:?}", CfgTp5TimePulseMode::TimePulse2)),
  ("CfgTmode2TimeXferModes", "Disabled", CfgTmode2TimeXferModes::Disabled as u8, format!("{:?}", CfgTmode2TimeXferModes::Disabled)),
  ("CfgTmode2TimeXferModes", "SurveyIn", CfgTmode2TimeXferModes::SurveyIn as u8, format!("{:?}", CfgTmode2TimeXferModes::SurveyIn)),
  ("CfgTmode2TimeXferModes", "FixedMode", CfgTmode2TimeXferModes::FixedMode as u8, format!("{:?}", CfgTmode2TimeXferModes::FixedMode)),
  ("I2cPortId", "I2c", I2cPortId::I2c as u8, format!("{:?}", I2cPortId::I2c)),
  ("UartPortId", "Uart1", UartPortId::Uart1 as u8, format!("{:?}", UartPortId::Uart1)),
  ("UartPortId", "Uart2", UartPortId::Uart2 as u8, format!("{:?}", UartPortId::Uart2)),
  ("UartPortId", "Usb", UartPortId::Usb as u8, format!("{:?}", UartPortId::Usb)),
  ("SpiPortId", "Spi", SpiPortId::Spi as u8, format!("{:?}", SpiPortId::Spi)),
  ("CfgNav5DynModel", "Portable", CfgNav5DynModel::Portable as u8, format!("{:?}", CfgNav5DynModel::Portable)),
  ("CfgNav5DynModel", "Stationary", CfgNav5DynModel::Stationary as u8, format!("{:?}", CfgNav5DynModel::Stationary)),
  ("CfgNav5DynModel", "Pedestrian", CfgNav5DynModel::Pedestrian as u8, format!("{:?}", CfgNav5DynModel::Pedestrian)),
  ("CfgNav5DynModel", "Automotive", CfgNav5DynModel::Automotive as u8, format!("{:?}", CfgNav5DynModel::Automotive)),
  ("CfgNav5DynModel", "Sea", CfgNav5DynModel::Sea as u8, format!("{:?}", CfgNav5DynModel::Sea)),
  ("CfgNav5DynModel", "AirborneWithLess1gAcceleration", CfgNav5DynModel::AirborneWithLess1gAcceleration as u8, format!("{:?}", CfgNav5DynModel::AirborneWithLess1gAcceleration)),
  ("CfgNav5DynModel", "AirborneWithLess2gAcceleration", CfgNav5DynModel::AirborneWithLess2gAcceleration as u8, format!("{:?}", CfgNav5DynModel::AirborneWithLess2gAcceleration)),
  ("CfgNav5DynModel", "AirborneWith4gAcceleration", CfgNav5DynModel::AirborneWith4gAcceleration as u8, format!("{:?}", CfgNav5DynModel::AirborneWith4gAcceleration)),
  ("CfgNav5DynModel", "WristWornWatch", CfgNav5DynModel::WristWornWatch as u8, format!("{:?}", CfgNav5DynModel::WristWornWatch)),
  ("CfgNav5DynModel", "Bike", CfgNav5DynModel::Bike as u8, format!("{:?}", CfgNav5DynModel::Bike)),
  ("CfgNav5FixMode", "Only2D", CfgNav5FixMode::Only2D as u8, format!("{:?}", CfgNav5FixMode::Only2D)),
  ("CfgNav5FixMode", "Only3D", CfgNav5FixMode::Only3D as u8, format!("{:?}", CfgNav5FixMode::Only3D)),
  ("CfgNav5FixMode", "Auto2D3D", CfgNav5FixMode::Auto2D3D as u8, format!("{:?}", CfgNav5FixMode::Auto2D3D)),
  ("CfgNav5UtcStandard", "Automatic", CfgNav5UtcStandard::Automatic as u8, format!("{:?}", CfgNav5UtcStandard::Automatic)),
  ("CfgNav5UtcStandard", "Usno", CfgNav5UtcStandard::Usno as u8, format!("{:?}", CfgNav5UtcStandard::Usno)),
  ("CfgNav5UtcStandard", "UtcSu", CfgNav5UtcStandard::UtcSu as u8, format!("{:?}", CfgNav5UtcStandard::UtcSu)),
  ("CfgNav5UtcStandard", "UtcChina", CfgNav5UtcStandard::UtcChina as u8, format!("{:?}", CfgNav5UtcStandard::UtcChina)),
  ("MsgAckInfoCode", "Accepted", MsgAckInfoCode::Accepted as u8, format!("{:?}", MsgAckInfoCode::Accepted)),
  ("MsgAckInfoCode", "RejectedNoTime", MsgAckInfoCode::RejectedNoTime as u8, format!("{:?}", MsgAckInfoCode::RejectedNoTime)),
  ("MsgAckInfoCode", "RejectedBadVersion", MsgAckInfoCode::RejectedBadVersion as u8, format!("{:?}", MsgAckInfoCode::RejectedBadVersion)),
  ("MsgAckInfoCode", "RejectedBadSize", MsgAckInfoCode::RejectedBadSize as u8, format!("{:?}", MsgAckInfoCode::RejectedBadSize)),
  ("MsgAckInfoCode", "RejectedDBStoreFailed", MsgAckInfoCode::RejectedDBStoreFailed as u8, format!("{:?}", MsgAckInfoCode::RejectedDBStoreFailed)),
  ("MsgAckInfoCode", "RejectedNotReady", MsgAckInfoCode::RejectedNotReady as u8, format!("{:?}", MsgAckInfoCode::RejectedNotReady)),
  ("MsgAckInfoCode", "RejectedUnknownType", MsgAckInfoCode::RejectedUnknownType as u8, format!("{:?}", MsgAckInfoCode::RejectedUnknownType)),
  ("AntennaStatus", "Init", AntennaStatus::Init as u8, format!("{:?}", AntennaStatus::Init)),
  ("AntennaStatus", "DontKnow", AntennaStatus::DontKnow as u8, format!("{:?}", AntennaStatus::DontKnow)),
  ("AntennaStatus", "Ok", AntennaStatus::Ok as u8, format!("{:?}", AntennaStatus::Ok)),
  ("AntennaStatus", "Short", AntennaStatus::Short as u8, format!("{:?}", AntennaStatus::Short)),
  ("AntennaStatus", "Open", AntennaStatus::Open as u8, format!("{:?}", AntennaStatus::Open)),
  ("AntennaPower", "Off", AntennaPower::Off as u8, format!("{:?}", AntennaPower::Off)),
  ("AntennaPower", "On", AntennaPower::On as u8, format!("{:?}", AntennaPower::On)),
  ("AntennaPower", "DontKnow", AntennaPower::DontKnow as u8, format!("{:?}", AntennaPower::DontKnow)),
] }
impl IntoVal for GpsFix { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for NavStatusFlags2 { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for OdoProfile { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for CfgItfmAntennaSettings { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for CfgTp5TimePulseMode { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for CfgTmode2TimeXferModes { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for I2cPortId { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for UartPortId { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for SpiPortId { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for CfgNav5DynModel { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for CfgNav5FixMode { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for CfgNav5UtcStandard { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for MsgAckInfoCode { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for AntennaStatus { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for AntennaPower { fn val(self) -> Val { Val::Enum(format!("{:?}", self), self as u64) } }
impl IntoVal for NavHpPosEcefFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for NavPvtFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for NavPvtFlags2 { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for NavStatusFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for OdoCogFilterFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgInfMask { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for AntFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgTmode2Flags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for NavTimeLsFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgTmode3RcvrMode { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgTp5Flags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgTmode3Flags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgLayer { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for InProtoMask { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for OutProtoMask { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for NavTimeUtcFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgNav5Params { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgNavX5Params1 { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for CfgNavX5Params2 { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for RecStatFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for MonGnssConstellMask { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for EsfInsBitFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for HnrInsBitFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for HnrPvtFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for HnrPvtValidFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for StdevFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
impl IntoVal for TrkStatFlags { fn val(self) -> Val { Val::Flags(self.bits() as u64) } }
pub fn mk_NavResetOdo(v: &[Fv]) -> NavResetOdoBuilder { NavResetOdoBuilder {  } }
pub fn mk_CfgOdo(v: &[Fv]) -> CfgOdoBuilder { CfgOdoBuilder { version: v[0].raw() as u8, reserved: v[1].bytes::<3>(), flags: OdoCogFilterFlags::from_bits_truncate(v[2].raw() as u8), odo_cfg: match v[3].raw() { 0 => OdoProfile::Running, 1 => OdoProfile::Cycling, 2 => OdoProfile::Swimming, 3 => OdoProfile::Car, 4 => OdoProfile::Custom, x => panic!("harness: code {} for OdoProfile", x) }, reserved2: v[4].bytes::<6>(), cog_max_speed: v[5].raw() as u8, cog_max_pos_acc: v[6].raw() as u8, reserved3: v[7].bytes::<2>(), vel_lp_gain: v[8].raw() as u8, cog_lp_gain: v[9].raw() as u8, reserved4: v[10].bytes::<2>() } }
pub fn mk_CfgItfm(v: &[Fv]) -> CfgItfmBuilder { CfgItfmBuilder { config: mk_CfgItfmConfig(&v[0]), config2: mk_CfgItfmConfig2(&v[1]) } }
pub fn mk_CfgInf(v: &[Fv]) -> CfgInfBuilder { CfgInfBuilder { protocol_id: v[0].raw() as u8, reserved: v[1].bytes::<3>(), inf_msg_mask_0: CfgInfMask::from_bits_truncate(v[2].raw() as u8), inf_msg_mask_1: CfgInfMask::from_bits_truncate(v[3].raw() as u8), inf_msg_mask_2: CfgInfMask::from_bits_truncate(v[4].raw() as u8), inf_msg_mask_3: CfgInfMask::from_bits_truncate(v[5].raw() as u8), inf_msg_mask_4: CfgInfMask::from_bits_truncate(v[6].raw() as u8), inf_msg_mask_5: CfgInfMask::from_bits_truncate(v[7].raw() as u8) } }
pub fn mk_AidIni(v: &[Fv]) -> AidIniBuilder { AidIniBuilder { ecef_x_or_lat: v[0].raw() as i32, ecef_y_or_lon: v[1].raw() as i32, ecef_z_or_alt: v[2].raw() as i32, pos_accuracy: v[3].raw() as u32, time_cfg: v[4].raw() as u16, week_or_ym: v[5].raw() as u16, tow_or_hms: v[6].raw() as u32, tow_ns: v[7].raw() as i32, tm_accuracy_ms: v[8].raw() as u32, tm_accuracy_ns: v[9].raw() as u32, clk_drift_or_freq: v[10].raw() as i32, clk_drift_or_freq_accuracy: v[11].raw() as u32, flags: v[12].raw() as u32 } }
pub fn mk_CfgRst(v: &[Fv]) -> CfgRstBuilder { CfgRstBuilder { nav_bbr_mask: NavBbrMask::from_bits_truncate(v[0].raw() as u16), reset_mode: match v[1].raw() { 0 => ResetMode::HardwareResetImmediately, 1 => ResetMode::ControlledSoftwareReset, 2 => ResetMode::ControlledSoftwareResetGpsOnly, 4 => ResetMode::HardwareResetAfterShutdown, 8 => ResetMode::ControlledGpsStop, 9 => ResetMode::ControlledGpsStart, x => panic!("harness: code {} for ResetMode", x) }, reserved1: v[2].raw() as u8 } }
pub fn mk_CfgAnt(v: &[Fv]) -> CfgAntBuilder { CfgAntBuilder { flags: AntFlags::from_bits_truncate(v[0].raw() as u16), pins: v[1].raw() as u16 } }
pub fn mk_CfgTp5(v: &[Fv]) -> CfgTp5Builder { CfgTp5Builder { tp_idx: match v[0].raw() { 0 => CfgTp5TimePulseMode::TimePulse, 1 => CfgTp5TimePulseMode::TimePulse2, x => panic!("harness: code {} for CfgTp5TimePulseMode", x) }, version: v[1].raw() as u8, reserved1: v[2].bytes::<2>(), ant_cable_delay: v[3].float() as f32, rf_group_delay: v[4].float() as f32, freq_period: v[5].float() as f64, freq_period_lock: v[6].float() as f64, pulse_len_ratio: v[7].float() as f64, pulse_len_ratio_lock: v[8].float() as f64, user_delay: v[9].float() as f64, flags: CfgTp5Flags::from_bits_truncate(v[10].raw() as u32) } }
pub fn mk_CfgTmode2(v: &[Fv]) -> CfgTmode2Builder { CfgTmode2Builder { time_transfer_mode: match v[0].raw() { 0 => CfgTmode2TimeXferModes::Disabled, 1 => CfgTmode2TimeXferModes::SurveyIn, 2 => CfgTmode2TimeXferModes::FixedMode, x => panic!("harness: code {} for CfgTmode2TimeXferModes", x) }, reserved1: v[1].raw() as u8, flags: CfgTmode2Flags::from_bits_truncate(v[2].raw() as u16), ecef_x_or_lat: v[3].float() as f64, ecef_y_or_lon: v[4].float() as f64, ecef_z_or_alt: v[5].float() as f64, fixed_pos_acc: v[6].float() as f64, survey_in_min_duration: v[7].raw() as u32, survery_in_accur_limit: v[8].float() as f64 } }
pub fn mk_CfgTmode3(v: &[Fv]) -> CfgTmode3Builder { CfgTmode3Builder { version: v[0].raw() as u8, reserved1: v[1].raw() as u8, rcvr_mode: CfgTmode3RcvrMode::from_bits_truncate(v[2].raw() as u8), flags: CfgTmode3Flags::from_bits_truncate(v[3].raw() as u8), ecef_x_or_lat: v[4].float() as f64, ecef_y_or_lon: v[5].float() as f64, ecef_z_or_alt: v[6].float() as f64, ecef_x_or_lat_hp: v[7].float() as f32, ecef_y_or_lon_hp: v[8].float() as f32, ecef_z_or_alt_hp: v[9].float() as f32, reserved2: v[10].raw() as u8, fixed_pos_acc: v[11].float() as f64, sv_in_min_duration: v[12].raw() as u32, sv_in_accur_limit: v[13].float() as f64, reserved3: v[14].bytes::<8>() } }
pub fn mk_CfgPrtI2c(v: &[Fv]) -> CfgPrtI2cBuilder { CfgPrtI2cBuilder { portid: match v[0].raw() { 0 => I2cPortId::I2c, x => panic!("harness: code {} for I2cPortId", x) }, reserved1: v[1].raw() as u8, tx_ready: v[2].raw() as u16, mode: v[3].raw() as u32, reserved2: v[4].raw() as u32, in_proto_mask: InProtoMask::from_bits_truncate(v[5].raw() as u16), out_proto_mask: OutProtoMask::from_bits_truncate(v[6].raw() as u16), flags: v[7].raw() as u16, reserved3: v[8].raw() as u16 } }
pub fn mk_CfgPrtUart(v: &[Fv]) -> CfgPrtUartBuilder { CfgPrtUartBuilder { portid: match v[0].raw() { 1 => UartPortId::Uart1, 2 => UartPortId::Uart2, 3 => UartPortId::Usb, x => panic!("harness: code {} for UartPortId", x) }, reserved0: v[1].raw() as u8, tx_ready: v[2].raw() as u16, mode: mk_UartMode(&v[3]), baud_rate: v[4].raw() as u32, in_proto_mask: InProtoMask::from_bits_truncate(v[5].raw() as u16), out_proto_mask: OutProtoMask::from_bits_truncate(v[6].raw() as u16), flags: v[7].raw() as u16, reserved5: v[8].raw() as u16 } }
pub fn mk_CfgPrtSpi(v: &[Fv]) -> CfgPrtSpiBuilder { CfgPrtSpiBuilder { portid: match v[0].raw() { 4 => SpiPortId::Spi, x => panic!("harness: code {} for SpiPortId", x) }, reserved0: v[1].raw() as u8, tx_ready: v[2].raw() as u16, mode: v[3].raw() as u32, reserved3: v[4].raw() as u32, in_proto_mask: InProtoMask::from_bits_truncate(v[5].raw() as u16), out_proto_mask: OutProtoMask::from_bits_truncate(v[6].raw() as u16), flags: v[7].raw() as u16, reserved5: v[8].raw() as u16 } }
pub fn mk_CfgRate(v: &[Fv]) -> CfgRateBuilder { CfgRateBuilder { measure_rate_ms: v[0].raw() as u16, nav_rate: v[1].raw() as u16, time_ref: match v[2].raw() { 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, 2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, 4 => AlignmentToReferenceTime::Gal, x => panic!("harness: code {} for AlignmentToReferenceTime", x) } } }
pub fn mk_CfgMsgSinglePort(v: &[Fv]) -> CfgMsgSinglePortBuilder { CfgMsgSinglePortBuilder { msg_class: v[0].raw() as u8, msg_id: v[1].raw() as u8, rate: v[2].raw() as u8 } }
pub fn mk_CfgMsgAllPorts(v: &[Fv]) -> CfgMsgAllPortsBuilder { CfgMsgAllPortsBuilder { msg_class: v[0].raw() as u8, msg_id: v[1].raw() as u8, rates: v[2].bytes::<6>() } }
pub fn mk_CfgNav5(v: &[Fv]) -> CfgNav5Builder { CfgNav5Builder { mask: CfgNav5Params::from_bits_truncate(v[0].raw() as u16), dyn_model: match v[1].raw() { 0 => CfgNav5DynModel::Portable, 2 => CfgNav5DynModel::Stationary, 3 => CfgNav5DynModel::Pedestrian, 4 => CfgNav5DynModel::Automotive, 5 => CfgNav5DynModel::Sea, 6 => CfgNav5DynModel::AirborneWithLess1gAcceleration, 7 => CfgNav5DynModel::AirborneWithLess2gAcceleration, 8 => CfgNav5DynModel::AirborneWith4gAcceleration, 9 => CfgNav5DynModel::WristWornWatch, 10 => CfgNav5DynModel::Bike, x => panic!("harness: code {} for CfgNav5DynModel", x) }, fix_mode: match v[2].raw() { 1 => CfgNav5FixMode::Only2D, 2 => CfgNav5FixMode::Only3D, 3 => CfgNav5FixMode::Auto2D3D, x => panic!("harness: code {} for CfgNav5FixMode", x) }, fixed_alt: v[3].float() as f64, fixed_alt_var: v[4].float() as f64, min_elev_degrees: v[5].raw() as i8, dr_limit: v[6].raw() as u8, pdop: v[7].float() as f32, tdop: v[8].float() as f32, pacc: v[9].raw() as u16, tacc: v[10].raw() as u16, static_hold_thresh: v[11].float() as f32, dgps_time_out: v[12].raw() as u8, cno_thresh_num_svs: v[13].raw() as u8, cno_thresh: v[14].raw() as u8, reserved1: v[15].bytes::<2>(), static_hold_max_dist: v[16].raw() as u16, utc_standard: match v[17].raw() { 0 => CfgNav5UtcStandard::Automatic, 3 => CfgNav5UtcStandard::Usno, 6 => CfgNav5UtcStandard::UtcSu, 7 => CfgNav5UtcStandard::UtcChina, x => panic!("harness: code {} for CfgNav5UtcStandard", x) }, reserved2: v[18].bytes::<5>() } }
pub fn mk_CfgNavX5(v: &[Fv]) -> CfgNavX5Builder { CfgNavX5Builder { version: v[0].raw() as u16, mask1: CfgNavX5Params1::from_bits_truncate(v[1].raw() as u16), mask2: CfgNavX5Params2::from_bits_truncate(v[2].raw() as u32), reserved1: v[3].bytes::<2>(), min_svs: v[4].raw() as u8, max_svs: v[5].raw() as u8, min_cno_dbhz: v[6].raw() as u8, reserved2: v[7].raw() as u8, ini_fix_3d: v[8].raw() as u8, reserved3: v[9].bytes::<2>(), ack_aiding: v[10].raw() as u8, wkn_rollover: v[11].raw() as u16, sig_atten_comp_mode: v[12].raw() as u8, reserved4: v[13].raw() as u8, reserved5: v[14].bytes::<2>(), reserved6: v[15].bytes::<2>(), use_ppp: v[16].raw() as u8, aop_cfg: v[17].raw() as u8, reserved7: v[18].bytes::<2>(), aop_orb_max_err: v[19].raw() as u16, reserved8: v[20].bytes::<4>(), reserved9: v[21].bytes::<3>(), use_adr: v[22].raw() as u8 } }
pub fn emit(name: &str, v: &[Fv], how: &mut How) -> Vec<u8> { match name {
  "NavResetOdo" => match how { How::Bytes => mk_NavResetOdo(v).into_packet_bytes().to_vec(), How::From => <[u8; 8]>::from(mk_NavResetOdo(v)).to_vec(), How::Into => { let x: [u8; 8] = mk_NavResetOdo(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_NavResetOdo(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_NavResetOdo(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; NavResetOdoBuilder::PACKET_LEN] },
  "CfgOdo" => match how { How::Bytes => mk_CfgOdo(v).into_packet_bytes().to_vec(), How::From => <[u8; 28]>::from(mk_CfgOdo(v)).to_vec(), How::Into => { let x: [u8; 28] = mk_CfgOdo(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgOdo(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgOdo(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgOdoBuilder::PACKET_LEN] },
  "CfgItfm" => match how { How::Bytes => mk_CfgItfm(v).into_packet_bytes().to_vec(), How::From => <[u8; 16]>::from(mk_CfgItfm(v)).to_vec(), How::Into => { let x: [u8; 16] = mk_CfgItfm(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgItfm(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgItfm(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgItfmBuilder::PACKET_LEN] },
  "CfgInf" => match how { How::Bytes => mk_CfgInf(v).into_packet_bytes().to_vec(), How::From => <[u8; 18]>::from(mk_CfgInf(v)).to_vec(), How::Into => { let x: [u8; 18] = mk_CfgInf(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgInf(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgInf(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgInfBuilder::PACKET_LEN] },
  "AidIni" => match how { How::Bytes => mk_AidIni(v).into_packet_bytes().to_vec(), How::From => <[u8; 56]>::from(mk_AidIni(v)).to_vec(), How::Into => { let x: [u8; 56] = mk_AidIni(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_AidIni(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_AidIni(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; AidIniBuilder::PACKET_LEN] },
  "CfgRst" => match how { How::Bytes => mk_CfgRst(v).into_packet_bytes().to_vec(), How::From => <[u8; 12]>::from(mk_CfgRst(v)).to_vec(), How::Into => { let x: [u8; 12] = mk_CfgRst(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgRst(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgRst(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgRstBuilder::PACKET_LEN] },
  "CfgAnt" => match how { How::Bytes => mk_CfgAnt(v).into_packet_bytes().to_vec(), How::From => <[u8; 12]>::from(mk_CfgAnt(v)).to_vec(), How::Into => { let x: [u8; 12] = mk_CfgAnt(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgAnt(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgAnt(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgAntBuilder::PACKET_LEN] },
  "CfgTp5" => match how { How::Bytes => mk_CfgTp5(v).into_packet_bytes().to_vec(), How::From => <[u8; 40]>::from(mk_CfgTp5(v)).to_vec(), How::Into => { let x: [u8; 40] = mk_CfgTp5(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgTp5(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgTp5(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgTp5Builder::PACKET_LEN] },
  "CfgTmode2" => match how { How::Bytes => mk_CfgTmode2(v).into_packet_bytes().to_vec(), How::From => <[u8; 36]>::from(mk_CfgTmode2(v)).to_vec(), How::Into => { let x: [u8; 36] = mk_CfgTmode2(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgTmode2(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgTmode2(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgTmode2Builder::PACKET_LEN] },
  "CfgTmode3" => match how { How::Bytes => mk_CfgTmode3(v).into_packet_bytes().to_vec(), How::From => <[u8; 48]>::from(mk_CfgTmode3(v)).to_vec(), How::Into => { let x: [u8; 48] = mk_CfgTmode3(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgTmode3(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgTmode3(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgTmode3Builder::PACKET_LEN] },
  "CfgPrtI2c" => match how { How::Bytes => mk_CfgPrtI2c(v).into_packet_bytes().to_vec(), How::From => <[u8; 28]>::from(mk_CfgPrtI2c(v)).to_vec(), How::Into => { let x: [u8; 28] = mk_CfgPrtI2c(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgPrtI2c(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgPrtI2c(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgPrtI2cBuilder::PACKET_LEN] },
  "CfgPrtUart" => match how { How::Bytes => mk_CfgPrtUart(v).into_packet_bytes().to_vec(), How::From => <[u8; 28]>::from(mk_CfgPrtUart(v)).to_vec(), How::Into => { let x: [u8; 28] = mk_CfgPrtUart(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgPrtUart(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgPrtUart(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgPrtUartBuilder::PACKET_LEN] },
  "CfgPrtSpi" => match how { How::Bytes => mk_CfgPrtSpi(v).into_packet_bytes().to_vec(), How::From => <[u8; 28]>::from(mk_CfgPrtSpi(v)).to_vec(), How::Into => { let x: [u8; 28] = mk_CfgPrtSpi(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgPrtSpi(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgPrtSpi(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgPrtSpiBuilder::PACKET_LEN] },
  "CfgRate" => match how { How::Bytes => mk_CfgRate(v).into_packet_bytes().to_vec(), How::From => <[u8; 14]>::from(mk_CfgRate(v)).to_vec(), How::Into => { let x: [u8; 14] = mk_CfgRate(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgRate(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgRate(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgRateBuilder::PACKET_LEN] },
  "CfgMsgSinglePort" => match how { How::Bytes => mk_CfgMsgSinglePort(v).into_packet_bytes().to_vec(), How::From => <[u8; 11]>::from(mk_CfgMsgSinglePort(v)).to_vec(), How::Into => { let x: [u8; 11] = mk_CfgMsgSinglePort(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgMsgSinglePort(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgMsgSinglePort(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgMsgSinglePortBuilder::PACKET_LEN] },
  "CfgMsgAllPorts" => match how { How::Bytes => mk_CfgMsgAllPorts(v).into_packet_bytes().to_vec(), How::From => <[u8; 16]>::from(mk_CfgMsgAllPorts(v)).to_vec(), How::Into => { let x: [u8; 16] = mk_CfgMsgAllPorts(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgMsgAllPorts(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgMsgAllPorts(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgMsgAllPortsBuilder::PACKET_LEN] },
  "CfgNav5" => match how { How::Bytes => mk_CfgNav5(v).into_packet_bytes().to_vec(), How::From => <[u8; 44]>::from(mk_CfgNav5(v)).to_vec(), How::Into => { let x: [u8; 44] = mk_CfgNav5(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgNav5(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgNav5(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgNav5Builder::PACKET_LEN] },
  "CfgNavX5" => match how { How::Bytes => mk_CfgNavX5(v).into_packet_bytes().to_vec(), How::From => <[u8; 48]>::from(mk_CfgNavX5(v)).to_vec(), How::Into => { let x: [u8; 48] = mk_CfgNavX5(v).into(); x.to_vec() }, How::Writer(w) => { w.result = Some(mk_CfgNavX5(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }, #[cfg(feature = "std")] How::VecWriter(w) => { mk_CfgNavX5(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }, How::Len => vec![0; CfgNavX5Builder::PACKET_LEN] },
  x => panic!("harness: no builder {}", x) } }
pub fn default_bytes() -> Vec<(&'static str, Vec<u8>)> { vec![
  ("CfgOdo", CfgOdoBuilder::default().into_packet_bytes().to_vec()),
  ("CfgInf", CfgInfBuilder::default().into_packet_bytes().to_vec()),
  ("AidIni", AidIniBuilder::default().into_packet_bytes().to_vec()),
  ("CfgTp5", CfgTp5Builder::default().into_packet_bytes().to_vec()),
  ("CfgTmode2", CfgTmode2Builder::default().into_packet_bytes().to_vec()),
  ("CfgTmode3", CfgTmode3Builder::default().into_packet_bytes().to_vec()),
  ("CfgPrtI2c", CfgPrtI2cBuilder::default().into_packet_bytes().to_vec()),
  ("CfgPrtSpi", CfgPrtSpiBuilder::default().into_packet_bytes().to_vec()),
  ("CfgNav5", CfgNav5Builder::default().into_packet_bytes().to_vec()),
  ("CfgNavX5", CfgNavX5Builder::default().into_packet_bytes().to_vec()),
] }
pub fn rebuild(p: &PacketRef) -> Option<Vec<u8>> { Some(match p {
  PacketRef::CfgOdo(r) => CfgOdoBuilder { version: r.version(), reserved: r.reserved(), flags: r.flags(), odo_cfg: r.odo_cfg(), reserved2: r.reserved2(), cog_max_speed: r.cog_max_speed(), cog_max_pos_acc: r.cog_max_pos_acc(), reserved3: r.reserved3(), vel_lp_gain: r.vel_lp_gain(), cog_lp_gain: r.cog_lp_gain(), reserved4: r.reserved4() }.into_packet_bytes().to_vec(),
  PacketRef::CfgItfm(r) => CfgItfmBuilder { config: r.config(), config2: r.config2() }.into_packet_bytes().to_vec(),
  PacketRef::CfgAnt(r) => CfgAntBuilder { flags: r.flags(), pins: r.pins() }.into_packet_bytes().to_vec(),
  PacketRef::CfgTp5(r) => CfgTp5Builder { tp_idx: r.tp_idx(), version: r.version(), reserved1: r.reserved1(), ant_cable_delay: r.ant_cable_delay(), rf_group_delay: r.rf_group_delay(), freq_period: r.freq_period(), freq_period_lock: r.freq_period_lock(), pulse_len_ratio: r.pulse_len_ratio(), pulse_len_ratio_lock: r.pulse_len_ratio_lock(), user_delay: r.user_delay(), flags: r.flags() }.into_packet_bytes().to_vec(),
  PacketRef::CfgTmode2(r) => CfgTmode2Builder { time_transfer_mode: r.time_transfer_mode(), reserved1: r.reserved1(), flags: r.flags(), ecef_x_or_lat: r.ecef_x_or_lat(), ecef_y_or_lon: r.ecef_y_or_lon(), ecef_z_or_alt: r.ecef_z_or_alt(), fixed_pos_acc: r.fixed_pos_acc(), survey_in_min_duration: r.survey_in_min_duration(), survery_in_accur_limit: r.survery_in_accur_limit() }.into_packet_bytes().to_vec(),
  PacketRef::CfgTmode3(r) => CfgTmode3Builder { version: r.version(), reserved1: r.reserved1(), rcvr_mode: r.rcvr_mode(), flags: r.flags(), ecef_x_or_lat: r.ecef_x_or_lat(), ecef_y_or_lon: r.ecef_y_or_lon(), ecef_z_or_alt: r.ecef_z_or_alt(), ecef_x_or_lat_hp: r.ecef_x_or_lat_hp(), ecef_y_or_lon_hp: r.ecef_y_or_lon_hp(), ecef_z_or_alt_hp: r.ecef_z_or_alt_hp(), reserved2: r.reserved2(), fixed_pos_acc: r.fixed_pos_acc(), sv_in_min_duration: r.sv_in_min_duration(), sv_in_accur_limit: r.sv_in_accur_limit(), reserved3: r.reserved3() }.into_packet_bytes().to_vec(),
  PacketRef::CfgPrtI2c(r) => CfgPrtI2cBuilder { portid: r.portid(), reserved1: r.reserved1(), tx_ready: r.tx_ready(), mode: r.mode(), reserved2: r.reserved2(), in_proto_mask: r.in_proto_mask(), out_proto_mask: r.out_proto_mask(), flags: r.flags(), reserved3: r.reserved3() }.into_packet_bytes().to_vec(),
  PacketRef::CfgPrtUart(r) => CfgPrtUartBuilder { portid: r.portid(), reserved0: r.reserved0(), tx_ready: r.tx_ready(), mode: r.mode(), baud_rate: r.baud_rate(), in_proto_mask: r.in_proto_mask(), out_proto_mask: r.out_proto_mask(), flags: r.flags(), reserved5: r.reserved5() }.into_packet_bytes().to_vec(),
  PacketRef::CfgPrtSpi(r) => CfgPrtSpiBuilder { portid: r.portid(), reserved0: r.reserved0(), tx_ready: r.tx_ready(), mode: r.mode(), reserved3: r.reserved3(), in_proto_mask: r.in_proto_mask(), out_proto_mask: r.out_proto_mask(), flags: r.flags(), reserved5: r.reserved5() }.into_packet_bytes().to_vec(),
  PacketRef::CfgNav5(r) => CfgNav5Builder { mask: r.mask(), dyn_model: r.dyn_model(), fix_mode: r.fix_mode(), fixed_alt: r.fixed_alt(), fixed_alt_var: r.fixed_alt_var(), min_elev_degrees: r.min_elev_degrees(), dr_limit: r.dr_limit(), pdop: r.pdop(), tdop: r.tdop(), pacc: r.pacc(), tacc: r.tacc(), static_hold_thresh: r.static_hold_thresh(), dgps_time_out: r.dgps_time_out(), cno_thresh_num_svs: r.cno_thresh_num_svs(), cno_thresh: r.cno_thresh(), reserved1: r.reserved1(), static_hold_max_dist: r.static_hold_max_dist(), utc_standard: r.utc_standard(), reserved2: r.reserved2() }.into_packet_bytes().to_vec(),
  _ => return None }) }
