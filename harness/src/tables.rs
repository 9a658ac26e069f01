// Generated by spec/gen.py from the audited spec/spec.json. Golden: never regenerated by a check.
#![allow(clippy::all)]
use crate::spec::*;

pub static ENUM_GPSFIX: EnumDef = EnumDef { name: "GpsFix", rest: Rest::Reserved, default: None, variants: &[("NoFix", 0), ("DeadReckoningOnly", 1), ("Fix2D", 2), ("Fix3D", 3), ("GPSPlusDeadReckoning", 4), ("TimeOnlyFix", 5)] };
pub static ENUM_NAVSTATUSFLAGS2: EnumDef = EnumDef { name: "NavStatusFlags2", rest: Rest::Reserved, default: None, variants: &[("Acquisition", 0), ("Tracking", 1), ("PowerOptimizedTracking", 2), ("Inactive", 3)] };
pub static ENUM_ODOPROFILE: EnumDef = EnumDef { name: "OdoProfile", rest: Rest::Error, default: Some(0), variants: &[("Running", 0), ("Cycling", 1), ("Swimming", 2), ("Car", 3), ("Custom", 4)] };
pub static ENUM_CFGITFMANTENNASETTINGS: EnumDef = EnumDef { name: "CfgItfmAntennaSettings", rest: Rest::Error, default: Some(0), variants: &[("Unknown", 0), ("Active", 1), ("Passive", 2)] };
pub static ENUM_CFGTP5TIMEPULSEMODE: EnumDef = EnumDef { name: "CfgTp5TimePulseMode", rest: Rest::Error, default: Some(0), variants: &[("TimePulse", 0), ("TimePulse2", 1)] };
pub static ENUM_CFGTMODE2TIMEXFERMODES: EnumDef = EnumDef { name: "CfgTmode2TimeXferModes", rest: Rest::Error, default: Some(0), variants: &[("Disabled", 0), ("SurveyIn", 1), ("FixedMode", 2)] };
pub static ENUM_I2CPORTID: EnumDef = EnumDef { name: "I2cPortId", rest: Rest::Error, default: Some(0), variants: &[("I2c", 0)] };
pub static ENUM_UARTPORTID: EnumDef = EnumDef { name: "UartPortId", rest: Rest::Error, default: None, variants: &[("Uart1", 1), ("Uart2", 2), ("Usb", 3)] };
pub static ENUM_SPIPORTID: EnumDef = EnumDef { name: "SpiPortId", rest: Rest::Error, default: Some(4), variants: &[("Spi", 4)] };
pub static ENUM_CFGNAV5DYNMODEL: EnumDef = EnumDef { name: "CfgNav5DynModel", rest: Rest::Error, default: Some(8), variants: &[("Portable", 0), ("Stationary", 2), ("Pedestrian", 3), ("Automotive", 4), ("Sea", 5), ("AirborneWithLess1gAcceleration", 6), ("AirborneWithLess2gAcceleration", 7), ("AirborneWith4gAcceleration", 8), ("WristWornWatch", 9), ("Bike", 10)] };
pub static ENUM_CFGNAV5FIXMODE: EnumDef = EnumDef { name: "CfgNav5FixMode", rest: Rest::Error, default: Some(3), variants: &[("Only2D", 1), ("Only3D", 2), ("Auto2D3D", 3)] };
pub static ENUM_CFGNAV5UTCSTANDARD: EnumDef = EnumDef { name: "CfgNav5UtcStandard", rest: Rest::Error, default: Some(0), variants: &[("Automatic", 0), ("Usno", 3), ("UtcSu", 6), ("UtcChina", 7)] };
pub static ENUM_MSGACKINFOCODE: EnumDef = EnumDef { name: "MsgAckInfoCode", rest: Rest::Reserved, default: None, variants: &[("Accepted", 0), ("RejectedNoTime", 1), ("RejectedBadVersion", 2), ("RejectedBadSize", 3), ("RejectedDBStoreFailed", 4), ("RejectedNotReady", 5), ("RejectedUnknownType", 6)] };
pub static ENUM_ANTENNASTATUS: EnumDef = EnumDef { name: "AntennaStatus", rest: Rest::Reserved, default: None, variants: &[("Init", 0), ("DontKnow", 1), ("Ok", 2), ("Short", 3), ("Open", 4)] };
pub static ENUM_ANTENNAPOWER: EnumDef = EnumDef { name: "AntennaPower", rest: Rest::Reserved, default: None, variants: &[("Off", 0), ("On", 1), ("DontKnow", 2)] };
pub static ENUM_RESETMODE: EnumDef = EnumDef { name: "ResetMode", rest: Rest::Error, default: None, variants: &[("HardwareResetImmediately", 0), ("ControlledSoftwareReset", 1), ("ControlledSoftwareResetGpsOnly", 2), ("HardwareResetAfterShutdown", 4), ("ControlledGpsStop", 8), ("ControlledGpsStart", 9)] };
pub static ENUM_ALIGNMENTTOREFERENCETIME: EnumDef = EnumDef { name: "AlignmentToReferenceTime", rest: Rest::Error, default: None, variants: &[("Utc", 0), ("Gps", 1), ("Glo", 2), ("Bds", 3), ("Gal", 4)] };
pub static FLAGS_NAVHPPOSECEFFLAGS: FlagDef = FlagDef { name: "NavHpPosEcefFlags", bits: 8, consts: &[("INVALID_ECEF", 1)] };
pub static FLAGS_NAVPVTFLAGS: FlagDef = FlagDef { name: "NavPvtFlags", bits: 8, consts: &[("GPS_FIX_OK", 1), ("DIFF_SOLN", 2), ("HEAD_VEH_VALID", 32), ("CARR_SOLN_FLOAT", 64), ("CARR_SOLN_FIXED", 128)] };
pub static FLAGS_NAVPVTFLAGS2: FlagDef = FlagDef { name: "NavPvtFlags2", bits: 8, consts: &[("CONFIRMED_AVAI", 32), ("CONFIRMED_DATE", 64), ("CONFIRMED_TIME", 128)] };
pub static FLAGS_NAVSTATUSFLAGS: FlagDef = FlagDef { name: "NavStatusFlags", bits: 8, consts: &[("GPS_FIX_OK", 1), ("DIFF_SOLN", 2), ("WKN_SET", 4), ("TOW_SET", 8)] };
pub static FLAGS_ODOCOGFILTERFLAGS: FlagDef = FlagDef { name: "OdoCogFilterFlags", bits: 8, consts: &[("USE_ODO", 1), ("USE_COG", 2), ("OUT_LP_VEL", 4), ("OUT_LP_COG", 8)] };
pub static FLAGS_CFGINFMASK: FlagDef = FlagDef { name: "CfgInfMask", bits: 8, consts: &[("ERROR", 1), ("WARNING", 2), ("NOTICE", 4), ("TEST", 8), ("DEBUG", 16)] };
pub static FLAGS_ANTFLAGS: FlagDef = FlagDef { name: "AntFlags", bits: 16, consts: &[("SVCS", 1), ("SCD", 2), ("OCD", 4), ("PDWN_ON_SCD", 8), ("RECOVERY", 16)] };
pub static FLAGS_CFGTMODE2FLAGS: FlagDef = FlagDef { name: "CfgTmode2Flags", bits: 16, consts: &[("LLA", 1), ("ALT_INVALID", 2)] };
pub static FLAGS_NAVTIMELSFLAGS: FlagDef = FlagDef { name: "NavTimeLsFlags", bits: 8, consts: &[("VALID_CURR_LS", 1), ("VALID_TIME_TO_LS_EVENT", 2)] };
pub static FLAGS_CFGTMODE3RCVRMODE: FlagDef = FlagDef { name: "CfgTmode3RcvrMode", bits: 8, consts: &[("DISABLED", 1), ("SURVEY_IN", 2), ("FIXED_MODE", 4)] };
pub static FLAGS_CFGTP5FLAGS: FlagDef = FlagDef { name: "CfgTp5Flags", bits: 32, consts: &[("ACTIVE", 1), ("LOCK_GNSS_FREQ", 2), ("LOCKED_OTHER_SET", 4), ("IS_FREQ", 8), ("IS_LENGTH", 16), ("ALIGN_TO_TOW", 32), ("POLARITY", 64), ("UTC_TIME_GRID", 128), ("GPS_TIME_GRID", 256), ("GLO_TIME_GRID", 512), ("BDS_TIME_GRID", 1024), ("GAL_TIME_GRID", 2048), ("SYNC_MODE_0", 4096), ("SYNC_MODE_1", 8192)] };
pub static FLAGS_CFGTMODE3FLAGS: FlagDef = FlagDef { name: "CfgTmode3Flags", bits: 8, consts: &[("LLA", 1)] };
pub static FLAGS_NAVBBRMASK: FlagDef = FlagDef { name: "NavBbrMask", bits: 16, consts: &[("EPHEMERIS", 1), ("ALMANACH", 2), ("HEALTH", 4), ("KLOBUCHARD", 8), ("POSITION", 16), ("CLOCK_DRIFT", 32), ("OSCILATOR_PARAMETER", 64), ("UTC_CORRECTION_PARAMETERS", 128), ("RTC", 256), ("SFDR_PARAMETERS", 2048), ("SFDR_VEHICLE_MONITORING_PARAMETERS", 4096), ("TCT_PARAMETERS", 8192), ("AUTONOMOUS_ORBIT_PARAMETERS", 32768)] };
pub static FLAGS_CFGLAYER: FlagDef = FlagDef { name: "CfgLayer", bits: 8, consts: &[("RAM", 1), ("BBR", 2), ("FLASH", 4)] };
pub static FLAGS_INPROTOMASK: FlagDef = FlagDef { name: "InProtoMask", bits: 16, consts: &[("UBLOX", 1), ("NMEA", 2), ("RTCM", 4), ("RTCM3", 32)] };
pub static FLAGS_OUTPROTOMASK: FlagDef = FlagDef { name: "OutProtoMask", bits: 16, consts: &[("UBLOX", 1), ("NMEA", 2), ("RTCM3", 32)] };
pub static FLAGS_NAVTIMEUTCFLAGS: FlagDef = FlagDef { name: "NavTimeUtcFlags", bits: 8, consts: &[("VALID_TOW", 1), ("VALID_WKN", 2), ("VALID_UTC", 4)] };
pub static FLAGS_CFGNAV5PARAMS: FlagDef = FlagDef { name: "CfgNav5Params", bits: 16, consts: &[("DYN", 1), ("MIN_EL", 2), ("POS_FIX_MODE", 4), ("DR_LIM", 8), ("POS_MASK_APPLY", 16), ("TIME_MASK", 32), ("STATIC_HOLD_MASK", 64), ("DGPS_MASK", 128), ("CNO_THRESHOLD", 256), ("UTC", 1024)] };
pub static FLAGS_CFGNAVX5PARAMS1: FlagDef = FlagDef { name: "CfgNavX5Params1", bits: 16, consts: &[("MIN_MAX", 4), ("MIN_CNO", 8), ("INITIAL_3D_FIX", 64), ("WKN_ROLL", 512), ("AID_ACK", 1024), ("USE_PPP", 8192), ("AOP_CFG", 16384)] };
pub static FLAGS_CFGNAVX5PARAMS2: FlagDef = FlagDef { name: "CfgNavX5Params2", bits: 32, consts: &[("USE_ADR", 64), ("USE_SIG_ATTEN_COMP", 128)] };
pub static FLAGS_RECSTATFLAGS: FlagDef = FlagDef { name: "RecStatFlags", bits: 8, consts: &[("LEAP_SEC", 1), ("CLK_RESET", 2)] };
pub static FLAGS_MONGNSSCONSTELLMASK: FlagDef = FlagDef { name: "MonGnssConstellMask", bits: 8, consts: &[("GPS", 1), ("GLO", 2), ("BDC", 4), ("GAL", 8)] };
pub static FLAGS_ESFINSBITFLAGS: FlagDef = FlagDef { name: "EsfInsBitFlags", bits: 32, consts: &[("VERSION", 1), ("X_ANG_RATE_VALID", 256), ("Y_ANG_RATE_VALID", 512), ("Z_ANG_RATE_VALID", 1024), ("X_ACCEL_VALID", 2048), ("Y_ACCEL_VALID", 4096), ("Z_ACCEL_VALID", 8192)] };
pub static FLAGS_HNRINSBITFLAGS: FlagDef = FlagDef { name: "HnrInsBitFlags", bits: 32, consts: &[("VERSION", 1), ("X_ANG_RATE_VALID", 256), ("Y_ANG_RATE_VALID", 512), ("Z_ANG_RATE_VALID", 1024), ("X_ACCEL_VALID", 2048), ("Y_ACCEL_VALID", 4096), ("Z_ACCEL_VALID", 8192)] };
pub static FLAGS_HNRPVTFLAGS: FlagDef = FlagDef { name: "HnrPvtFlags", bits: 8, consts: &[("GPS_FIX_OK", 1), ("DIFF_SOLN", 2), ("WKN_SET", 4), ("TOW_SET", 8), ("HEAD_VEH_VALID", 16)] };
pub static FLAGS_HNRPVTVALIDFLAGS: FlagDef = FlagDef { name: "HnrPvtValidFlags", bits: 8, consts: &[("VALID_DATE", 1), ("VALID_TIME", 2), ("FULLY_RESOLVED", 4)] };
pub static FLAGS_STDEVFLAGS: FlagDef = FlagDef { name: "StdevFlags", bits: 8, consts: &[("STD_1", 1), ("STD_2", 2), ("STD_3", 4), ("STD_4", 8)] };
pub static FLAGS_TRKSTATFLAGS: FlagDef = FlagDef { name: "TrkStatFlags", bits: 8, consts: &[("PR_VALID", 1), ("CP_VALID", 2), ("HALF_CYCLE", 4), ("SUB_HALF_CYCLE", 8)] };
pub static ALL_FLAGS: &[&FlagDef] = &[&FLAGS_NAVHPPOSECEFFLAGS, &FLAGS_NAVPVTFLAGS, &FLAGS_NAVPVTFLAGS2, &FLAGS_NAVSTATUSFLAGS, &FLAGS_ODOCOGFILTERFLAGS, &FLAGS_CFGINFMASK, &FLAGS_ANTFLAGS, &FLAGS_CFGTMODE2FLAGS, &FLAGS_NAVTIMELSFLAGS, &FLAGS_CFGTMODE3RCVRMODE, &FLAGS_CFGTP5FLAGS, &FLAGS_CFGTMODE3FLAGS, &FLAGS_NAVBBRMASK, &FLAGS_CFGLAYER, &FLAGS_INPROTOMASK, &FLAGS_OUTPROTOMASK, &FLAGS_NAVTIMEUTCFLAGS, &FLAGS_CFGNAV5PARAMS, &FLAGS_CFGNAVX5PARAMS1, &FLAGS_CFGNAVX5PARAMS2, &FLAGS_RECSTATFLAGS, &FLAGS_MONGNSSCONSTELLMASK, &FLAGS_ESFINSBITFLAGS, &FLAGS_HNRINSBITFLAGS, &FLAGS_HNRPVTFLAGS, &FLAGS_HNRPVTVALIDFLAGS, &FLAGS_STDEVFLAGS, &FLAGS_TRKSTATFLAGS];
pub static ALL_ENUMS: &[&EnumDef] = &[&ENUM_GPSFIX, &ENUM_NAVSTATUSFLAGS2, &ENUM_ODOPROFILE, &ENUM_CFGITFMANTENNASETTINGS, &ENUM_CFGTP5TIMEPULSEMODE, &ENUM_CFGTMODE2TIMEXFERMODES, &ENUM_I2CPORTID, &ENUM_UARTPORTID, &ENUM_SPIPORTID, &ENUM_CFGNAV5DYNMODEL, &ENUM_CFGNAV5FIXMODE, &ENUM_CFGNAV5UTCSTANDARD, &ENUM_MSGACKINFOCODE, &ENUM_ANTENNASTATUS, &ENUM_ANTENNAPOWER];
pub static PKTS: &[Pkt] = &[
  Pkt { name: "NavPosLlh", recv: true, send: false, class: 1, id: 2, fixed: Some(28), max: 28, min: 28, dispatch: Some(0), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "lon", getter: "lon_degrees", off: 4, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "lat", getter: "lat_degrees", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "height_meters", getter: "height_meters", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "height_msl", getter: "height_msl", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "h_ack", getter: "h_ack", off: 20, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "v_acc", getter: "v_acc", off: 24, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.001_f64 } }] },
  Pkt { name: "NavVelNed", recv: true, send: false, class: 1, id: 18, fixed: Some(36), max: 36, min: 36, dispatch: Some(5), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "vel_north", getter: "vel_north", off: 4, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "vel_east", getter: "vel_east", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "vel_down", getter: "vel_down", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "speed_3d", getter: "speed_3d", off: 16, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ground_speed", getter: "ground_speed", off: 20, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "heading", getter: "heading_degrees", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "speed_accuracy_estimate", getter: "speed_accuracy_estimate", off: 28, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "course_heading_accuracy_estimate", getter: "course_heading_accuracy_estimate", off: 32, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } }] },
  Pkt { name: "NavHpPosLlh", recv: true, send: false, class: 1, id: 20, fixed: Some(36), max: 36, min: 36, dispatch: Some(6), default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 1, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "itow", getter: "itow", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "lon", getter: "lon_degrees", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "lat", getter: "lat_degrees", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "height_meters", getter: "height_meters", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "height_msl", getter: "height_msl", off: 20, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "lon_hp", getter: "lon_hp_degrees", off: 24, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1e-09_f64 } },
    Field { name: "lat_hp", getter: "lat_hp_degrees", off: 25, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1e-09_f64 } },
    Field { name: "height_hp_meters", getter: "height_hp_meters", off: 26, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 0.1_f64 } },
    Field { name: "height_hp_msl", getter: "height_hp_msl", off: 27, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 0.1_f64 } },
    Field { name: "horizontal_accuracy", getter: "horizontal_accuracy", off: 28, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.1_f64 } },
    Field { name: "vertical_accuracy", getter: "vertical_accuracy", off: 32, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.1_f64 } }] },
  Pkt { name: "NavHpPosEcef", recv: true, send: false, class: 1, id: 19, fixed: Some(28), max: 28, min: 28, dispatch: Some(7), default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 1, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "itow", getter: "itow", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "ecef_x", getter: "ecef_x_cm", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "ecef_y", getter: "ecef_y_cm", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "ecef_z", getter: "ecef_z_cm", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "ecef_x_hp", getter: "ecef_x_hp_mm", off: 20, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 0.1_f64 } },
    Field { name: "ecef_y_hp", getter: "ecef_y_hp_mm", off: 21, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 0.1_f64 } },
    Field { name: "ecef_z_hp", getter: "ecef_z_hp_mm", off: 22, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 0.1_f64 } },
    Field { name: "flags", getter: "flags", off: 23, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVHPPOSECEFFLAGS) },
    Field { name: "p_acc", getter: "p_acc", off: 24, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.1_f64 } }] },
  Pkt { name: "NavPvt", recv: true, send: false, class: 1, id: 7, fixed: Some(92), max: 92, min: 92, dispatch: Some(3), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "year", getter: "year", off: 4, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "month", getter: "month", off: 6, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "day", getter: "day", off: 7, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "hour", getter: "hour", off: 8, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "min", getter: "min", off: 9, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sec", getter: "sec", off: 10, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "valid", getter: "valid", off: 11, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "time_accuracy", getter: "time_accuracy", off: 12, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "nanosecond", getter: "nanosecond", off: 16, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "fix_type", getter: "fix_type", off: 20, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_GPSFIX) },
    Field { name: "flags", getter: "flags", off: 21, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVPVTFLAGS) },
    Field { name: "flags2", getter: "flags2", off: 22, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVPVTFLAGS2) },
    Field { name: "num_satellites", getter: "num_satellites", off: 23, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "lon", getter: "lon_degrees", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "lat", getter: "lat_degrees", off: 28, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "height_meters", getter: "height_meters", off: 32, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "height_msl", getter: "height_msl", off: 36, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "horiz_accuracy", getter: "horiz_accuracy", off: 40, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "vert_accuracy", getter: "vert_accuracy", off: 44, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "vel_north", getter: "vel_north", off: 48, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "vel_east", getter: "vel_east", off: 52, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "vel_down", getter: "vel_down", off: 56, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "ground_speed", getter: "ground_speed", off: 60, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "heading", getter: "heading_degrees", off: 64, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "speed_accuracy_estimate", getter: "speed_accuracy_estimate", off: 68, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "heading_accuracy_estimate", getter: "heading_accuracy_estimate", off: 72, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "pdop", getter: "pdop", off: 76, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 78, size: 6, ty: Ty::Bytes(6), map: Map::None },
    Field { name: "heading_of_vehicle", getter: "heading_of_vehicle_degrees", off: 84, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "magnetic_declination", getter: "magnetic_declination_degrees", off: 88, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "magnetic_declination_accuracy", getter: "magnetic_declination_accuracy_degrees", off: 90, size: 2, ty: Ty::U16, map: Map::Float { single: false, scale: 0.01_f64 } }] },
  Pkt { name: "NavStatus", recv: true, send: false, class: 1, id: 3, fixed: Some(16), max: 16, min: 16, dispatch: Some(1), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "fix_type", getter: "fix_type", off: 4, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_GPSFIX) },
    Field { name: "flags", getter: "flags", off: 5, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVSTATUSFLAGS) },
    Field { name: "fix_stat", getter: "fix_stat", off: 6, size: 1, ty: Ty::U8, map: Map::Custom(Custom::FixStatusInfo) },
    Field { name: "flags2", getter: "flags2", off: 7, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_NAVSTATUSFLAGS2) },
    Field { name: "time_to_first_fix", getter: "time_to_first_fix", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "uptime_ms", getter: "uptime_ms", off: 12, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "NavDop", recv: true, send: false, class: 1, id: 4, fixed: Some(18), max: 18, min: 18, dispatch: Some(2), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "geometric_dop", getter: "geometric_dop", off: 4, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "position_dop", getter: "position_dop", off: 6, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "time_dop", getter: "time_dop", off: 8, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "vertical_dop", getter: "vertical_dop", off: 10, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "horizontal_dop", getter: "horizontal_dop", off: 12, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "northing_dop", getter: "northing_dop", off: 14, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "easting_dop", getter: "easting_dop", off: 16, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } }] },
  Pkt { name: "NavEoe", recv: true, send: false, class: 1, id: 97, fixed: Some(4), max: 4, min: 4, dispatch: Some(11), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "NavSolution", recv: true, send: false, class: 1, id: 6, fixed: Some(52), max: 52, min: 52, dispatch: Some(4), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "ftow_ns", getter: "ftow_ns", off: 4, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "week", getter: "week", off: 8, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "fix_type", getter: "fix_type", off: 10, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_GPSFIX) },
    Field { name: "flags", getter: "flags", off: 11, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVSTATUSFLAGS) },
    Field { name: "ecef_x", getter: "ecef_x", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_y", getter: "ecef_y", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_z", getter: "ecef_z", off: 20, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "position_accuracy_estimate", getter: "position_accuracy_estimate", off: 24, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_vx", getter: "ecef_vx", off: 28, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_vy", getter: "ecef_vy", off: 32, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_vz", getter: "ecef_vz", off: 36, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "speed_accuracy_estimate", getter: "speed_accuracy_estimate", off: 40, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "pdop", getter: "pdop", off: 44, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "reserved1", getter: "reserved1", off: 46, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "num_sv", getter: "num_sv", off: 47, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 48, size: 4, ty: Ty::Bytes(4), map: Map::None }] },
  Pkt { name: "NavSatSvInfo", recv: true, send: false, class: 1, id: 53, fixed: Some(12), max: 12, min: 12, dispatch: None, default_builder: false, fields: &[
    Field { name: "gnss_id", getter: "gnss_id", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_id", getter: "sv_id", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "cno", getter: "cno", off: 2, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "elev", getter: "elev", off: 3, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "azim", getter: "azim", off: 4, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "pr_res", getter: "pr_res", off: 6, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "flags", getter: "flags", off: 8, size: 4, ty: Ty::U32, map: Map::Custom(Custom::NavSatSvFlags) }] },
  Pkt { name: "NavSat", recv: true, send: false, class: 1, id: 53, fixed: None, max: 1240, min: 8, dispatch: Some(10), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "version", getter: "version", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "num_svs", getter: "num_svs", off: 5, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved", getter: "reserved", off: 6, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "svs", getter: "svs", off: 8, size: 0, ty: Ty::Bytes(0), map: Map::List(ListKind::NavSat) }] },
  Pkt { name: "NavOdo", recv: true, send: false, class: 1, id: 9, fixed: Some(20), max: 20, min: 20, dispatch: Some(12), default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved", getter: "reserved", off: 1, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "itow", getter: "itow", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "distance", getter: "distance", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "total_distance", getter: "total_distance", off: 12, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "distance_std", getter: "distance_std", off: 16, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "NavResetOdo", recv: false, send: true, class: 1, id: 16, fixed: Some(0), max: 0, min: 0, dispatch: None, default_builder: false, fields: &[
    ] },
  Pkt { name: "CfgOdo", recv: true, send: true, class: 6, id: 30, fixed: Some(20), max: 20, min: 20, dispatch: Some(13), default_builder: true, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved", getter: "reserved", off: 1, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "flags", getter: "flags", off: 4, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_ODOCOGFILTERFLAGS) },
    Field { name: "odo_cfg", getter: "odo_cfg", off: 5, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_ODOPROFILE) },
    Field { name: "reserved2", getter: "reserved2", off: 6, size: 6, ty: Ty::Bytes(6), map: Map::None },
    Field { name: "cog_max_speed", getter: "cog_max_speed", off: 12, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "cog_max_pos_acc", getter: "cog_max_pos_acc", off: 13, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved3", getter: "reserved3", off: 14, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "vel_lp_gain", getter: "vel_lp_gain", off: 16, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "cog_lp_gain", getter: "cog_lp_gain", off: 17, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved4", getter: "reserved4", off: 18, size: 2, ty: Ty::Bytes(2), map: Map::None }] },
  Pkt { name: "CfgItfm", recv: true, send: true, class: 6, id: 57, fixed: Some(8), max: 8, min: 8, dispatch: Some(21), default_builder: false, fields: &[
    Field { name: "config", getter: "config", off: 0, size: 4, ty: Ty::U32, map: Map::Custom(Custom::CfgItfmConfig) },
    Field { name: "config2", getter: "config2", off: 4, size: 4, ty: Ty::U32, map: Map::Custom(Custom::CfgItfmConfig2) }] },
  Pkt { name: "CfgInf", recv: true, send: true, class: 6, id: 2, fixed: Some(10), max: 10, min: 10, dispatch: None, default_builder: true, fields: &[
    Field { name: "protocol_id", getter: "protocol_id", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved", getter: "reserved", off: 1, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "inf_msg_mask_0", getter: "inf_msg_mask_0", off: 4, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGINFMASK) },
    Field { name: "inf_msg_mask_1", getter: "inf_msg_mask_1", off: 5, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGINFMASK) },
    Field { name: "inf_msg_mask_2", getter: "inf_msg_mask_2", off: 6, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGINFMASK) },
    Field { name: "inf_msg_mask_3", getter: "inf_msg_mask_3", off: 7, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGINFMASK) },
    Field { name: "inf_msg_mask_4", getter: "inf_msg_mask_4", off: 8, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGINFMASK) },
    Field { name: "inf_msg_mask_5", getter: "inf_msg_mask_5", off: 9, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGINFMASK) }] },
  Pkt { name: "InfError", recv: true, send: false, class: 4, id: 0, fixed: None, max: 1240, min: 0, dispatch: Some(30), default_builder: true, fields: &[
    Field { name: "message", getter: "message", off: 0, size: 0, ty: Ty::Bytes(0), map: Map::OptStr }] },
  Pkt { name: "InfNotice", recv: true, send: false, class: 4, id: 2, fixed: None, max: 1240, min: 0, dispatch: Some(32), default_builder: true, fields: &[
    Field { name: "message", getter: "message", off: 0, size: 0, ty: Ty::Bytes(0), map: Map::OptStr }] },
  Pkt { name: "InfTest", recv: true, send: false, class: 4, id: 3, fixed: None, max: 1240, min: 0, dispatch: Some(33), default_builder: true, fields: &[
    Field { name: "message", getter: "message", off: 0, size: 0, ty: Ty::Bytes(0), map: Map::OptStr }] },
  Pkt { name: "InfWarning", recv: true, send: false, class: 4, id: 1, fixed: None, max: 1240, min: 0, dispatch: Some(31), default_builder: true, fields: &[
    Field { name: "message", getter: "message", off: 0, size: 0, ty: Ty::Bytes(0), map: Map::OptStr }] },
  Pkt { name: "InfDebug", recv: true, send: false, class: 4, id: 4, fixed: None, max: 1240, min: 0, dispatch: Some(34), default_builder: true, fields: &[
    Field { name: "message", getter: "message", off: 0, size: 0, ty: Ty::Bytes(0), map: Map::OptStr }] },
  Pkt { name: "AidIni", recv: false, send: true, class: 11, id: 1, fixed: Some(48), max: 48, min: 48, dispatch: None, default_builder: true, fields: &[
    Field { name: "ecef_x_or_lat", getter: "ecef_x_or_lat", off: 0, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "ecef_y_or_lon", getter: "ecef_y_or_lon", off: 4, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "ecef_z_or_alt", getter: "ecef_z_or_alt", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "pos_accuracy", getter: "pos_accuracy", off: 12, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "time_cfg", getter: "time_cfg", off: 16, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "week_or_ym", getter: "week_or_ym", off: 18, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "tow_or_hms", getter: "tow_or_hms", off: 20, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "tow_ns", getter: "tow_ns", off: 24, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "tm_accuracy_ms", getter: "tm_accuracy_ms", off: 28, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "tm_accuracy_ns", getter: "tm_accuracy_ns", off: 32, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "clk_drift_or_freq", getter: "clk_drift_or_freq", off: 36, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "clk_drift_or_freq_accuracy", getter: "clk_drift_or_freq_accuracy", off: 40, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "flags", getter: "flags", off: 44, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "AlpSrv", recv: true, send: false, class: 11, id: 50, fixed: Some(16), max: 16, min: 16, dispatch: Some(18), default_builder: false, fields: &[
    Field { name: "id_size", getter: "id_size", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "data_type", getter: "data_type", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "offset", getter: "offset", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "size", getter: "size", off: 4, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "file_id", getter: "file_id", off: 6, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "data_size", getter: "data_size", off: 8, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "id1", getter: "id1", off: 10, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "id2", getter: "id2", off: 11, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "id3", getter: "id3", off: 12, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "AckAck", recv: true, send: false, class: 5, id: 1, fixed: Some(2), max: 2, min: 2, dispatch: Some(19), default_builder: false, fields: &[
    Field { name: "class", getter: "class", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "msg_id", getter: "msg_id", off: 1, size: 1, ty: Ty::U8, map: Map::None }] },
  Pkt { name: "AckNak", recv: true, send: false, class: 5, id: 0, fixed: Some(2), max: 2, min: 2, dispatch: Some(20), default_builder: false, fields: &[
    Field { name: "class", getter: "class", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "msg_id", getter: "msg_id", off: 1, size: 1, ty: Ty::U8, map: Map::None }] },
  Pkt { name: "CfgRst", recv: false, send: true, class: 6, id: 4, fixed: Some(4), max: 4, min: 4, dispatch: None, default_builder: false, fields: &[
    Field { name: "nav_bbr_mask", getter: "nav_bbr_mask", off: 0, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_NAVBBRMASK) },
    Field { name: "reset_mode", getter: "reset_mode", off: 2, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_RESETMODE) },
    Field { name: "reserved1", getter: "reserved1", off: 3, size: 1, ty: Ty::U8, map: Map::None }] },
  Pkt { name: "CfgAnt", recv: true, send: true, class: 6, id: 19, fixed: Some(4), max: 4, min: 4, dispatch: Some(26), default_builder: false, fields: &[
    Field { name: "flags", getter: "flags", off: 0, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_ANTFLAGS) },
    Field { name: "pins", getter: "pins", off: 2, size: 2, ty: Ty::U16, map: Map::None }] },
  Pkt { name: "CfgTp5", recv: true, send: true, class: 6, id: 49, fixed: Some(32), max: 32, min: 32, dispatch: Some(29), default_builder: true, fields: &[
    Field { name: "tp_idx", getter: "tp_idx", off: 0, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_CFGTP5TIMEPULSEMODE) },
    Field { name: "version", getter: "version", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 2, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "ant_cable_delay", getter: "ant_cable_delay", off: 4, size: 2, ty: Ty::I16, map: Map::Float { single: true, scale: 1.0_f64 } },
    Field { name: "rf_group_delay", getter: "rf_group_delay", off: 6, size: 2, ty: Ty::I16, map: Map::Float { single: true, scale: 1.0_f64 } },
    Field { name: "freq_period", getter: "freq_period", off: 8, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "freq_period_lock", getter: "freq_period_lock", off: 12, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "pulse_len_ratio", getter: "pulse_len_ratio", off: 16, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "pulse_len_ratio_lock", getter: "pulse_len_ratio_lock", off: 20, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "user_delay", getter: "user_delay", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "flags", getter: "flags", off: 28, size: 4, ty: Ty::U32, map: Map::Flags(&FLAGS_CFGTP5FLAGS) }] },
  Pkt { name: "CfgTmode2", recv: true, send: true, class: 6, id: 61, fixed: Some(28), max: 28, min: 28, dispatch: Some(27), default_builder: true, fields: &[
    Field { name: "time_transfer_mode", getter: "time_transfer_mode", off: 0, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_CFGTMODE2TIMEXFERMODES) },
    Field { name: "reserved1", getter: "reserved1", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "flags", getter: "flags", off: 2, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_CFGTMODE2FLAGS) },
    Field { name: "ecef_x_or_lat", getter: "ecef_x_or_lat", off: 4, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_y_or_lon", getter: "ecef_y_or_lon", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_z_or_alt", getter: "ecef_z_or_alt", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "fixed_pos_acc", getter: "fixed_pos_acc", off: 16, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "survey_in_min_duration", getter: "survey_in_min_duration", off: 20, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "survery_in_accur_limit", getter: "survery_in_accur_limit", off: 24, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.001_f64 } }] },
  Pkt { name: "TimSvin", recv: true, send: false, class: 13, id: 4, fixed: Some(28), max: 28, min: 28, dispatch: Some(53), default_builder: false, fields: &[
    Field { name: "dur", getter: "dur", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "mean_x", getter: "mean_x", off: 4, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "mean_y", getter: "mean_y", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "mean_z", getter: "mean_z", off: 12, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "mean_v", getter: "mean_v", off: 16, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "obs", getter: "obs", off: 20, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "valid", getter: "valid", off: 24, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "active", getter: "active", off: 25, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved", getter: "reserved", off: 26, size: 2, ty: Ty::Bytes(2), map: Map::None }] },
  Pkt { name: "NavTimeLs", recv: true, send: false, class: 1, id: 38, fixed: Some(24), max: 24, min: 24, dispatch: Some(9), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "version", getter: "version", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved_1", getter: "reserved_1", off: 5, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "src_of_curr_ls", getter: "src_of_curr_ls", off: 8, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "current_ls", getter: "current_ls", off: 9, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "src_of_ls_change", getter: "src_of_ls_change", off: 10, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "ls_change", getter: "ls_change", off: 11, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "time_to_ls_event", getter: "time_to_ls_event", off: 12, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "date_of_ls_gps_wn", getter: "date_of_ls_gps_wn", off: 16, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "date_of_ls_gps_dn", getter: "date_of_ls_gps_dn", off: 18, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved_2", getter: "reserved_2", off: 20, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "valid", getter: "valid", off: 23, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVTIMELSFLAGS) }] },
  Pkt { name: "CfgTmode3", recv: true, send: true, class: 6, id: 113, fixed: Some(40), max: 40, min: 40, dispatch: Some(28), default_builder: true, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "rcvr_mode", getter: "rcvr_mode", off: 2, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGTMODE3RCVRMODE) },
    Field { name: "flags", getter: "flags", off: 3, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGTMODE3FLAGS) },
    Field { name: "ecef_x_or_lat", getter: "ecef_x_or_lat", off: 4, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_y_or_lon", getter: "ecef_y_or_lon", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_z_or_alt", getter: "ecef_z_or_alt", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "ecef_x_or_lat_hp", getter: "ecef_x_or_lat_hp", off: 16, size: 1, ty: Ty::I8, map: Map::Float { single: true, scale: 1.0_f64 } },
    Field { name: "ecef_y_or_lon_hp", getter: "ecef_y_or_lon_hp", off: 17, size: 1, ty: Ty::I8, map: Map::Float { single: true, scale: 1.0_f64 } },
    Field { name: "ecef_z_or_alt_hp", getter: "ecef_z_or_alt_hp", off: 18, size: 1, ty: Ty::I8, map: Map::Float { single: true, scale: 1.0_f64 } },
    Field { name: "reserved2", getter: "reserved2", off: 19, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "fixed_pos_acc", getter: "fixed_pos_acc", off: 20, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.0001_f64 } },
    Field { name: "sv_in_min_duration", getter: "sv_in_min_duration", off: 24, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "sv_in_accur_limit", getter: "sv_in_accur_limit", off: 28, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.0001_f64 } },
    Field { name: "reserved3", getter: "reserved3", off: 32, size: 8, ty: Ty::Bytes(8), map: Map::None }] },
  Pkt { name: "CfgValSet", recv: false, send: true, class: 6, id: 138, fixed: None, max: 772, min: 4, dispatch: None, default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "layers", getter: "layers", off: 1, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_CFGLAYER) },
    Field { name: "reserved1", getter: "reserved1", off: 2, size: 2, ty: Ty::U16, map: Map::None }] },
  Pkt { name: "CfgPrtI2c", recv: true, send: true, class: 6, id: 0, fixed: Some(20), max: 20, min: 20, dispatch: Some(22), default_builder: true, fields: &[
    Field { name: "portid", getter: "portid", off: 0, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_I2CPORTID) },
    Field { name: "reserved1", getter: "reserved1", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "tx_ready", getter: "tx_ready", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "mode", getter: "mode", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "in_proto_mask", getter: "in_proto_mask", off: 12, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_INPROTOMASK) },
    Field { name: "out_proto_mask", getter: "out_proto_mask", off: 14, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_OUTPROTOMASK) },
    Field { name: "flags", getter: "flags", off: 16, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved3", getter: "reserved3", off: 18, size: 2, ty: Ty::U16, map: Map::None }] },
  Pkt { name: "CfgPrtUart", recv: true, send: true, class: 6, id: 0, fixed: Some(20), max: 20, min: 20, dispatch: Some(24), default_builder: false, fields: &[
    Field { name: "portid", getter: "portid", off: 0, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_UARTPORTID) },
    Field { name: "reserved0", getter: "reserved0", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "tx_ready", getter: "tx_ready", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "mode", getter: "mode", off: 4, size: 4, ty: Ty::U32, map: Map::Custom(Custom::UartMode) },
    Field { name: "baud_rate", getter: "baud_rate", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "in_proto_mask", getter: "in_proto_mask", off: 12, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_INPROTOMASK) },
    Field { name: "out_proto_mask", getter: "out_proto_mask", off: 14, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_OUTPROTOMASK) },
    Field { name: "flags", getter: "flags", off: 16, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved5", getter: "reserved5", off: 18, size: 2, ty: Ty::U16, map: Map::None }] },
  Pkt { name: "CfgPrtSpi", recv: true, send: true, class: 6, id: 0, fixed: Some(20), max: 20, min: 20, dispatch: Some(23), default_builder: true, fields: &[
    Field { name: "portid", getter: "portid", off: 0, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_SPIPORTID) },
    Field { name: "reserved0", getter: "reserved0", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "tx_ready", getter: "tx_ready", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "mode", getter: "mode", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "reserved3", getter: "reserved3", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "in_proto_mask", getter: "in_proto_mask", off: 12, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_INPROTOMASK) },
    Field { name: "out_proto_mask", getter: "out_proto_mask", off: 14, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_OUTPROTOMASK) },
    Field { name: "flags", getter: "flags", off: 16, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved5", getter: "reserved5", off: 18, size: 2, ty: Ty::U16, map: Map::None }] },
  Pkt { name: "NavTimeUTC", recv: true, send: false, class: 1, id: 33, fixed: Some(20), max: 20, min: 20, dispatch: Some(8), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "time_accuracy_estimate_ns", getter: "time_accuracy_estimate_ns", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "nanos", getter: "nanos", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "year", getter: "year", off: 12, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "month", getter: "month", off: 14, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "day", getter: "day", off: 15, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "hour", getter: "hour", off: 16, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "min", getter: "min", off: 17, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sec", getter: "sec", off: 18, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "valid", getter: "valid", off: 19, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_NAVTIMEUTCFLAGS) }] },
  Pkt { name: "CfgRate", recv: false, send: true, class: 6, id: 8, fixed: Some(6), max: 6, min: 6, dispatch: None, default_builder: false, fields: &[
    Field { name: "measure_rate_ms", getter: "measure_rate_ms", off: 0, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "nav_rate", getter: "nav_rate", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "time_ref", getter: "time_ref", off: 4, size: 2, ty: Ty::U16, map: Map::Enum(&ENUM_ALIGNMENTTOREFERENCETIME) }] },
  Pkt { name: "CfgMsgSinglePort", recv: false, send: true, class: 6, id: 1, fixed: Some(3), max: 3, min: 3, dispatch: None, default_builder: false, fields: &[
    Field { name: "msg_class", getter: "msg_class", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "msg_id", getter: "msg_id", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "rate", getter: "rate", off: 2, size: 1, ty: Ty::U8, map: Map::None }] },
  Pkt { name: "CfgMsgAllPorts", recv: false, send: true, class: 6, id: 1, fixed: Some(8), max: 8, min: 8, dispatch: None, default_builder: false, fields: &[
    Field { name: "msg_class", getter: "msg_class", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "msg_id", getter: "msg_id", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "rates", getter: "rates", off: 2, size: 6, ty: Ty::Bytes(6), map: Map::None }] },
  Pkt { name: "CfgNav5", recv: true, send: true, class: 6, id: 36, fixed: Some(36), max: 36, min: 36, dispatch: Some(25), default_builder: true, fields: &[
    Field { name: "mask", getter: "mask", off: 0, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_CFGNAV5PARAMS) },
    Field { name: "dyn_model", getter: "dyn_model", off: 2, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_CFGNAV5DYNMODEL) },
    Field { name: "fix_mode", getter: "fix_mode", off: 3, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_CFGNAV5FIXMODE) },
    Field { name: "fixed_alt", getter: "fixed_alt", off: 4, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "fixed_alt_var", getter: "fixed_alt_var", off: 8, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 0.0001_f64 } },
    Field { name: "min_elev_degrees", getter: "min_elev_degrees", off: 12, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "dr_limit", getter: "dr_limit", off: 13, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "pdop", getter: "pdop", off: 14, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.1_f64 } },
    Field { name: "tdop", getter: "tdop", off: 16, size: 2, ty: Ty::U16, map: Map::Float { single: true, scale: 0.1_f64 } },
    Field { name: "pacc", getter: "pacc", off: 18, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "tacc", getter: "tacc", off: 20, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "static_hold_thresh", getter: "static_hold_thresh", off: 22, size: 1, ty: Ty::U8, map: Map::Float { single: true, scale: 0.01_f64 } },
    Field { name: "dgps_time_out", getter: "dgps_time_out", off: 23, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "cno_thresh_num_svs", getter: "cno_thresh_num_svs", off: 24, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "cno_thresh", getter: "cno_thresh", off: 25, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 26, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "static_hold_max_dist", getter: "static_hold_max_dist", off: 28, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "utc_standard", getter: "utc_standard", off: 30, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_CFGNAV5UTCSTANDARD) },
    Field { name: "reserved2", getter: "reserved2", off: 31, size: 5, ty: Ty::Bytes(5), map: Map::None }] },
  Pkt { name: "CfgNavX5", recv: true, send: true, class: 6, id: 35, fixed: Some(40), max: 40, min: 40, dispatch: None, default_builder: true, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "mask1", getter: "mask1", off: 2, size: 2, ty: Ty::U16, map: Map::Flags(&FLAGS_CFGNAVX5PARAMS1) },
    Field { name: "mask2", getter: "mask2", off: 4, size: 4, ty: Ty::U32, map: Map::Flags(&FLAGS_CFGNAVX5PARAMS2) },
    Field { name: "reserved1", getter: "reserved1", off: 8, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "min_svs", getter: "min_svs", off: 10, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "max_svs", getter: "max_svs", off: 11, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "min_cno_dbhz", getter: "min_cno_dbhz", off: 12, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 13, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "ini_fix_3d", getter: "ini_fix_3d", off: 14, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved3", getter: "reserved3", off: 15, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "ack_aiding", getter: "ack_aiding", off: 17, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "wkn_rollover", getter: "wkn_rollover", off: 18, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "sig_atten_comp_mode", getter: "sig_atten_comp_mode", off: 20, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved4", getter: "reserved4", off: 21, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved5", getter: "reserved5", off: 22, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "reserved6", getter: "reserved6", off: 24, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "use_ppp", getter: "use_ppp", off: 26, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "aop_cfg", getter: "aop_cfg", off: 27, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved7", getter: "reserved7", off: 28, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "aop_orb_max_err", getter: "aop_orb_max_err", off: 30, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved8", getter: "reserved8", off: 32, size: 4, ty: Ty::Bytes(4), map: Map::None },
    Field { name: "reserved9", getter: "reserved9", off: 36, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "use_adr", getter: "use_adr", off: 39, size: 1, ty: Ty::U8, map: Map::None }] },
  Pkt { name: "MgaAck", recv: true, send: false, class: 19, id: 96, fixed: Some(8), max: 8, min: 8, dispatch: Some(14), default_builder: false, fields: &[
    Field { name: "ack_type", getter: "ack_type", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "version", getter: "version", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "info_code", getter: "info_code", off: 2, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_MSGACKINFOCODE) },
    Field { name: "msg_id", getter: "msg_id", off: 3, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "msg_payload_start", getter: "msg_payload_start", off: 4, size: 4, ty: Ty::Bytes(4), map: Map::None }] },
  Pkt { name: "MgaGloEph", recv: true, send: false, class: 19, id: 6, fixed: Some(48), max: 48, min: 48, dispatch: Some(17), default_builder: false, fields: &[
    Field { name: "msg_type", getter: "msg_type", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "version", getter: "version", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_id", getter: "sv_id", off: 2, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 3, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "ft", getter: "ft", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "b", getter: "b", off: 5, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "m", getter: "m", off: 6, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "h", getter: "h", off: 7, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "x", getter: "x", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "y", getter: "y", off: 12, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "z", getter: "z", off: 16, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "dx", getter: "dx", off: 20, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "dy", getter: "dy", off: 24, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "dz", getter: "dz", off: 28, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "ddx", getter: "ddx", off: 32, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "ddy", getter: "ddy", off: 33, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "ddz", getter: "ddz", off: 34, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "tb", getter: "tb", off: 35, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "gamma", getter: "gamma", off: 36, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "e", getter: "e", off: 38, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "delta_tau", getter: "delta_tau", off: 39, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "tau", getter: "tau", off: 40, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 44, size: 4, ty: Ty::Bytes(4), map: Map::None }] },
  Pkt { name: "MgaGpsIono", recv: true, send: false, class: 19, id: 0, fixed: Some(16), max: 16, min: 16, dispatch: Some(15), default_builder: false, fields: &[
    Field { name: "msg_type", getter: "msg_type", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "version", getter: "version", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 2, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "alpha0", getter: "alpha0", off: 4, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "alpha1", getter: "alpha1", off: 5, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "alpha2", getter: "alpha2", off: 6, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "alpha3", getter: "alpha3", off: 7, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "beta0", getter: "beta0", off: 8, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "beta1", getter: "beta1", off: 9, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "beta2", getter: "beta2", off: 10, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "beta3", getter: "beta3", off: 11, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 1.0_f64 } },
    Field { name: "reserved2", getter: "reserved2", off: 12, size: 4, ty: Ty::Bytes(4), map: Map::None }] },
  Pkt { name: "MgaGpsEph", recv: true, send: false, class: 19, id: 0, fixed: Some(68), max: 68, min: 68, dispatch: Some(16), default_builder: false, fields: &[
    Field { name: "msg_type", getter: "msg_type", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "version", getter: "version", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_id", getter: "sv_id", off: 2, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 3, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "fit_interval", getter: "fit_interval", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "ura_index", getter: "ura_index", off: 5, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_health", getter: "sv_health", off: 6, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "tgd", getter: "tgd", off: 7, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "iodc", getter: "iodc", off: 8, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "toc", getter: "toc", off: 10, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 12, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "af2", getter: "af2", off: 13, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "af1", getter: "af1", off: 14, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "af0", getter: "af0", off: 16, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "crs", getter: "crs", off: 20, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "delta_n", getter: "delta_n", off: 22, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "m0", getter: "m0", off: 24, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "cuc", getter: "cuc", off: 28, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "cus", getter: "cus", off: 30, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "e", getter: "e", off: 32, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "sqrt_a", getter: "sqrt_a", off: 36, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "toe", getter: "toe", off: 40, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "cic", getter: "cic", off: 42, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "omega0", getter: "omega0", off: 44, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "cis", getter: "cis", off: 48, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "crc", getter: "crc", off: 50, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "i0", getter: "i0", off: 52, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "omega", getter: "omega", off: 56, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "omega_dot", getter: "omega_dot", off: 60, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "idot", getter: "idot", off: 64, size: 2, ty: Ty::I16, map: Map::None },
    Field { name: "reserved3", getter: "reserved3", off: 66, size: 2, ty: Ty::Bytes(2), map: Map::None }] },
  Pkt { name: "TimTp", recv: true, send: false, class: 13, id: 1, fixed: Some(16), max: 16, min: 16, dispatch: Some(36), default_builder: false, fields: &[
    Field { name: "tow_ms", getter: "tow_ms", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "tow_sub_ms", getter: "tow_sub_ms", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "q_err", getter: "q_err", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "week", getter: "week", off: 12, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "flags", getter: "flags", off: 14, size: 1, ty: Ty::U8, map: Map::Custom(Custom::TimTpFlags) },
    Field { name: "ref_info", getter: "ref_info", off: 15, size: 1, ty: Ty::U8, map: Map::Custom(Custom::TimTpRefInfo) }] },
  Pkt { name: "TimTm2", recv: true, send: false, class: 13, id: 3, fixed: Some(28), max: 28, min: 28, dispatch: Some(37), default_builder: false, fields: &[
    Field { name: "ch", getter: "ch", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "flags", getter: "flags", off: 1, size: 1, ty: Ty::U8, map: Map::Custom(Custom::TimTm2Flags) },
    Field { name: "count", getter: "count", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "wn_r", getter: "wn_r", off: 4, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "wn_f", getter: "wn_f", off: 6, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "tow_ms_r", getter: "tow_ms_r", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "tow_sub_ms_r", getter: "tow_sub_ms_r", off: 12, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "tow_ms_f", getter: "tow_ms_f", off: 16, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "tow_sub_ms_f", getter: "tow_sub_ms_f", off: 20, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "acc_est", getter: "acc_est", off: 24, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "RxmRawx", recv: true, send: false, class: 2, id: 21, fixed: None, max: 8176, min: 16, dispatch: Some(35), default_builder: false, fields: &[
    Field { name: "rcv_tow", getter: "rcv_tow", off: 0, size: 8, ty: Ty::F64, map: Map::None },
    Field { name: "week", getter: "week", off: 8, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "leap_s", getter: "leap_s", off: 10, size: 1, ty: Ty::I8, map: Map::None },
    Field { name: "num_meas", getter: "num_meas", off: 11, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "rec_stat", getter: "rec_stat", off: 12, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_RECSTATFLAGS) },
    Field { name: "version", getter: "version", off: 13, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 14, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "measurements", getter: "measurements", off: 16, size: 0, ty: Ty::Bytes(0), map: Map::List(ListKind::RxmRawx) }] },
  Pkt { name: "MonHw", recv: true, send: false, class: 10, id: 9, fixed: Some(60), max: 60, min: 60, dispatch: Some(40), default_builder: false, fields: &[
    Field { name: "pin_sel", getter: "pin_sel", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "pin_bank", getter: "pin_bank", off: 4, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "pin_dir", getter: "pin_dir", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "pin_val", getter: "pin_val", off: 12, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "noise_per_ms", getter: "noise_per_ms", off: 16, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "agc_cnt", getter: "agc_cnt", off: 18, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "a_status", getter: "a_status", off: 20, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_ANTENNASTATUS) },
    Field { name: "a_power", getter: "a_power", off: 21, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_ANTENNAPOWER) },
    Field { name: "flags", getter: "flags", off: 22, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 23, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "used_mask", getter: "used_mask", off: 24, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "vp", getter: "vp", off: 28, size: 17, ty: Ty::Bytes(17), map: Map::None },
    Field { name: "jam_ind", getter: "jam_ind", off: 45, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 46, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "pin_irq", getter: "pin_irq", off: 48, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "pull_h", getter: "pull_h", off: 52, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "pull_l", getter: "pull_l", off: 56, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "MonGnss", recv: true, send: false, class: 10, id: 40, fixed: Some(8), max: 8, min: 8, dispatch: Some(39), default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "supported", getter: "supported", off: 1, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_MONGNSSCONSTELLMASK) },
    Field { name: "default", getter: "default", off: 2, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_MONGNSSCONSTELLMASK) },
    Field { name: "enabled", getter: "enabled", off: 3, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_MONGNSSCONSTELLMASK) },
    Field { name: "simultaneous", getter: "simultaneous", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 5, size: 3, ty: Ty::Bytes(3), map: Map::None }] },
  Pkt { name: "MonVer", recv: true, send: false, class: 10, id: 4, fixed: None, max: 1240, min: 40, dispatch: Some(38), default_builder: false, fields: &[
    Field { name: "software_version", getter: "software_version", off: 0, size: 30, ty: Ty::Bytes(30), map: Map::Cstr },
    Field { name: "hardware_version", getter: "hardware_version", off: 30, size: 10, ty: Ty::Bytes(10), map: Map::Cstr },
    Field { name: "extension", getter: "extension", off: 40, size: 0, ty: Ty::Bytes(0), map: Map::List(ListKind::MonVer) }] },
  Pkt { name: "RxmRtcm", recv: true, send: false, class: 2, id: 50, fixed: Some(8), max: 8, min: 8, dispatch: Some(41), default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "flags", getter: "flags", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sub_type", getter: "sub_type", off: 2, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "ref_station", getter: "ref_station", off: 4, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "msg_type", getter: "msg_type", off: 6, size: 2, ty: Ty::U16, map: Map::None }] },
  Pkt { name: "EsfMeas", recv: true, send: false, class: 16, id: 2, fixed: None, max: 1240, min: 8, dispatch: Some(42), default_builder: false, fields: &[
    Field { name: "time_tag", getter: "time_tag", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "flags", getter: "flags", off: 4, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "id", getter: "id", off: 6, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "data", getter: "data", off: 8, size: 0, ty: Ty::Bytes(0), map: Map::List(ListKind::EsfMeas) },
    Field { name: "calib_tag", getter: "calib_tag", off: 8, size: 0, ty: Ty::Bytes(0), map: Map::OptU32 }] },
  Pkt { name: "EsfRaw", recv: true, send: false, class: 16, id: 3, fixed: None, max: 1240, min: 4, dispatch: Some(52), default_builder: false, fields: &[
    Field { name: "msss", getter: "msss", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "data", getter: "data", off: 4, size: 0, ty: Ty::Bytes(0), map: Map::List(ListKind::EsfRaw) }] },
  Pkt { name: "EsfIns", recv: true, send: false, class: 16, id: 21, fixed: Some(36), max: 36, min: 36, dispatch: Some(43), default_builder: false, fields: &[
    Field { name: "bit_field", getter: "bit_field", off: 0, size: 4, ty: Ty::U32, map: Map::Flags(&FLAGS_ESFINSBITFLAGS) },
    Field { name: "reserved", getter: "reserved", off: 4, size: 4, ty: Ty::Bytes(4), map: Map::None },
    Field { name: "itow", getter: "itow", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "x_ang_rate", getter: "x_angular_rate", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "y_ang_rate", getter: "y_angular_rate", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "z_ang_rate", getter: "z_angular_rate", off: 20, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "x_accel", getter: "x_acceleration", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "y_accel", getter: "y_acceleration", off: 28, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "z_accel", getter: "z_acceleration", off: 32, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } }] },
  Pkt { name: "HnrAtt", recv: true, send: false, class: 40, id: 1, fixed: Some(32), max: 32, min: 32, dispatch: Some(44), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "version", getter: "version", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 5, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "roll", getter: "vehicle_roll", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "pitch", getter: "vehicle_pitch", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "heading", getter: "vehicle_heading", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "acc_roll", getter: "vehicle_roll_accuracy", off: 20, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "acc_pitch", getter: "vehicle_pitch_accuracy", off: 24, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "acc_heading", getter: "vehicle_heading_accuracy", off: 28, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } }] },
  Pkt { name: "HnrIns", recv: true, send: false, class: 40, id: 2, fixed: Some(36), max: 36, min: 36, dispatch: Some(45), default_builder: false, fields: &[
    Field { name: "bit_field", getter: "bit_field", off: 0, size: 4, ty: Ty::U32, map: Map::Flags(&FLAGS_HNRINSBITFLAGS) },
    Field { name: "reserved", getter: "reserved", off: 4, size: 4, ty: Ty::Bytes(4), map: Map::None },
    Field { name: "itow", getter: "itow", off: 8, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "x_ang_rate", getter: "x_angular_rate", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "y_ang_rate", getter: "y_angular_rate", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "z_ang_rate", getter: "z_angular_rate", off: 20, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "x_accel", getter: "x_acceleration", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "y_accel", getter: "y_acceleration", off: 28, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } },
    Field { name: "z_accel", getter: "z_acceleration", off: 32, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.01_f64 } }] },
  Pkt { name: "HnrPvt", recv: true, send: false, class: 40, id: 0, fixed: Some(72), max: 72, min: 72, dispatch: Some(46), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "year", getter: "year", off: 4, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "month", getter: "month", off: 6, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "day", getter: "day", off: 7, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "hour", getter: "hour", off: 8, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "min", getter: "min", off: 9, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sec", getter: "sec", off: 10, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "valid", getter: "valid", off: 11, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_HNRPVTVALIDFLAGS) },
    Field { name: "nano", getter: "nano", off: 12, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "gps_fix", getter: "gps_fix", off: 16, size: 1, ty: Ty::U8, map: Map::Enum(&ENUM_GPSFIX) },
    Field { name: "flags", getter: "flags", off: 17, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_HNRPVTFLAGS) },
    Field { name: "reserved1", getter: "reserved1", off: 18, size: 2, ty: Ty::Bytes(2), map: Map::None },
    Field { name: "lon", getter: "longitude", off: 20, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "lat", getter: "latitude", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-07_f64 } },
    Field { name: "height", getter: "height_above_ellipsoid", off: 28, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "height_msl", getter: "height_msl", off: 32, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "g_speed", getter: "ground_speed_2d", off: 36, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "speed", getter: "speed_3d", off: 40, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 0.001_f64 } },
    Field { name: "head_mot", getter: "heading_motion", off: 44, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "head_veh", getter: "heading_vehicle", off: 48, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "h_acc", getter: "h_acc", off: 52, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "v_acc", getter: "v_acc", off: 56, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "s_acc", getter: "s_acc", off: 60, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "head_acc", getter: "heading_accurracy", off: 64, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "reserved2", getter: "reserved2", off: 68, size: 4, ty: Ty::Bytes(4), map: Map::None }] },
  Pkt { name: "NavAtt", recv: true, send: false, class: 1, id: 5, fixed: Some(32), max: 32, min: 32, dispatch: Some(47), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "version", getter: "version", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 5, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "roll", getter: "vehicle_roll", off: 8, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "pitch", getter: "vehicle_pitch", off: 12, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "heading", getter: "vehicle_heading", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "acc_roll", getter: "vehicle_roll_accuracy", off: 20, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "acc_pitch", getter: "vehicle_pitch_accuracy", off: 24, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } },
    Field { name: "acc_heading", getter: "vehicle_heading_accuracy", off: 28, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 1e-05_f64 } }] },
  Pkt { name: "NavClock", recv: true, send: false, class: 1, id: 34, fixed: Some(20), max: 20, min: 20, dispatch: Some(48), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "clk_b", getter: "clk_b", off: 4, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "clk_d", getter: "clk_d", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "t_acc", getter: "t_acc", off: 12, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "f_acc", getter: "f_acc", off: 16, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "RxmSfrbx", recv: true, send: false, class: 2, id: 19, fixed: None, max: 72, min: 8, dispatch: Some(51), default_builder: false, fields: &[
    Field { name: "gnss_id", getter: "gnss_id", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_id", getter: "sv_id", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 2, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "freq_id", getter: "freq_id", off: 3, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "num_words", getter: "num_words", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 5, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "version", getter: "version", off: 6, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved3", getter: "reserved3", off: 7, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "dwrd", getter: "dwrd", off: 8, size: 0, ty: Ty::Bytes(0), map: Map::List(ListKind::Dwrd) }] },
  Pkt { name: "NavVelECEF", recv: true, send: false, class: 1, id: 17, fixed: Some(20), max: 20, min: 20, dispatch: Some(49), default_builder: false, fields: &[
    Field { name: "itow", getter: "itow", off: 0, size: 4, ty: Ty::U32, map: Map::None },
    Field { name: "ecef_vx", getter: "ecef_vx", off: 4, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "ecef_vy", getter: "ecef_vy", off: 8, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "ecef_vz", getter: "ecef_vz", off: 12, size: 4, ty: Ty::I32, map: Map::None },
    Field { name: "s_acc", getter: "s_acc", off: 16, size: 4, ty: Ty::U32, map: Map::None }] },
  Pkt { name: "MgaGpsEPH", recv: true, send: false, class: 19, id: 0, fixed: Some(68), max: 68, min: 68, dispatch: Some(50), default_builder: false, fields: &[
    Field { name: "msg_type", getter: "msg_type", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "version", getter: "version", off: 1, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_id", getter: "sv_id", off: 2, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 3, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "fit_interval", getter: "fit_interval", off: 4, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "ura_index", getter: "ura_index", off: 5, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_health", getter: "sv_health", off: 6, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "tgd", getter: "tgd", off: 7, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 2e-31_f64 } },
    Field { name: "iodc", getter: "iodc", off: 8, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "toc", getter: "toc", off: 10, size: 2, ty: Ty::U16, map: Map::Float { single: false, scale: 20000.0_f64 } },
    Field { name: "reserved2", getter: "reserved2", off: 12, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "af2", getter: "af2", off: 13, size: 1, ty: Ty::I8, map: Map::Float { single: false, scale: 2e-55_f64 } },
    Field { name: "afl", getter: "afl", off: 14, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-43_f64 } },
    Field { name: "af0", getter: "af0", off: 16, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 2e-31_f64 } },
    Field { name: "crs", getter: "crs", off: 20, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-05_f64 } },
    Field { name: "delta_n", getter: "delta_n", off: 22, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-43_f64 } },
    Field { name: "m0", getter: "m0", off: 24, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 2e-31_f64 } },
    Field { name: "cuc", getter: "cuc", off: 28, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-29_f64 } },
    Field { name: "cus", getter: "cus", off: 30, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-29_f64 } },
    Field { name: "e", getter: "e", off: 32, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 2e-33_f64 } },
    Field { name: "sqrt_a", getter: "sqrt_a", off: 36, size: 4, ty: Ty::U32, map: Map::Float { single: false, scale: 2e-19_f64 } },
    Field { name: "toe", getter: "toe", off: 40, size: 2, ty: Ty::U16, map: Map::Float { single: false, scale: 20000.0_f64 } },
    Field { name: "cic", getter: "cic", off: 42, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-29_f64 } },
    Field { name: "omega0", getter: "omega0", off: 44, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 2e-31_f64 } },
    Field { name: "cis", getter: "cis", off: 48, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-29_f64 } },
    Field { name: "crc", getter: "crc", off: 50, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-05_f64 } },
    Field { name: "i0", getter: "i0", off: 52, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 2e-31_f64 } },
    Field { name: "omega", getter: "omega", off: 56, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 2e-31_f64 } },
    Field { name: "omega_dot", getter: "omega_dot", off: 60, size: 4, ty: Ty::I32, map: Map::Float { single: false, scale: 2e-43_f64 } },
    Field { name: "idot", getter: "idot", off: 64, size: 2, ty: Ty::I16, map: Map::Float { single: false, scale: 2e-43_f64 } },
    Field { name: "reserved3", getter: "reserved3", off: 66, size: 2, ty: Ty::Bytes(2), map: Map::None }] },
  Pkt { name: "RxmRawxInfo", recv: true, send: false, class: 2, id: 21, fixed: Some(32), max: 32, min: 32, dispatch: None, default_builder: false, fields: &[
    Field { name: "pr_mes", getter: "pr_mes", off: 0, size: 8, ty: Ty::F64, map: Map::None },
    Field { name: "cp_mes", getter: "cp_mes", off: 8, size: 8, ty: Ty::F64, map: Map::None },
    Field { name: "do_mes", getter: "do_mes", off: 16, size: 4, ty: Ty::F32, map: Map::None },
    Field { name: "gnss_id", getter: "gnss_id", off: 20, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "sv_id", getter: "sv_id", off: 21, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved2", getter: "reserved2", off: 22, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "freq_id", getter: "freq_id", off: 23, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "lock_time", getter: "lock_time", off: 24, size: 2, ty: Ty::U16, map: Map::None },
    Field { name: "cno", getter: "cno", off: 26, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "pr_stdev", getter: "pr_stdev", off: 27, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_STDEVFLAGS) },
    Field { name: "cp_stdev", getter: "cp_stdev", off: 28, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_STDEVFLAGS) },
    Field { name: "do_stdev", getter: "do_stdev", off: 29, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_STDEVFLAGS) },
    Field { name: "trk_stat", getter: "trk_stat", off: 30, size: 1, ty: Ty::U8, map: Map::Flags(&FLAGS_TRKSTATFLAGS) },
    Field { name: "reserved3", getter: "reserved3", off: 31, size: 1, ty: Ty::U8, map: Map::None }] },
  Pkt { name: "SecUniqId", recv: true, send: false, class: 39, id: 3, fixed: Some(9), max: 9, min: 9, dispatch: Some(54), default_builder: false, fields: &[
    Field { name: "version", getter: "version", off: 0, size: 1, ty: Ty::U8, map: Map::None },
    Field { name: "reserved1", getter: "reserved1", off: 1, size: 3, ty: Ty::Bytes(3), map: Map::None },
    Field { name: "unique_id", getter: "unique_id", off: 4, size: 5, ty: Ty::Bytes(5), map: Map::None }] },
];
