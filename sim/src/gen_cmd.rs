// FROZEN output of tools/extract_cmds.py: filling the command builders from plain values.
use crate::cmd::{bytes_of, flt, itfm, itfm2, num, uart_mode, V};
use ublox::cfg_val::CfgVal;
use ublox::*;

pub fn en_OdoProfile(x: i64) -> OdoProfile {
    match x {
        1 => OdoProfile::Cycling,
        2 => OdoProfile::Swimming,
        3 => OdoProfile::Car,
        4 => OdoProfile::Custom,
        _ => OdoProfile::Running,
    }
}
pub fn en_CfgItfmAntennaSettings(x: i64) -> CfgItfmAntennaSettings {
    match x {
        1 => CfgItfmAntennaSettings::Active,
        2 => CfgItfmAntennaSettings::Passive,
        _ => CfgItfmAntennaSettings::Unknown,
    }
}
pub fn en_CfgTp5TimePulseMode(x: i64) -> CfgTp5TimePulseMode {
    match x {
        1 => CfgTp5TimePulseMode::TimePulse2,
        _ => CfgTp5TimePulseMode::TimePulse,
    }
}
pub fn en_CfgTmode2TimeXferModes(x: i64) -> CfgTmode2TimeXferModes {
    match x {
        1 => CfgTmode2TimeXferModes::SurveyIn,
        2 => CfgTmode2TimeXferModes::FixedMode,
        _ => CfgTmode2TimeXferModes::Disabled,
    }
}
pub fn en_I2cPortId(x: i64) -> I2cPortId {
    match x {
        _ => I2cPortId::I2c,
    }
}
pub fn en_UartPortId(x: i64) -> UartPortId {
    match x {
        2 => UartPortId::Uart2,
        3 => UartPortId::Usb,
        _ => UartPortId::Uart1,
    }
}
pub fn en_SpiPortId(x: i64) -> SpiPortId {
    match x {
        _ => SpiPortId::Spi,
    }
}
pub fn en_CfgNav5DynModel(x: i64) -> CfgNav5DynModel {
    match x {
        2 => CfgNav5DynModel::Stationary,
        3 => CfgNav5DynModel::Pedestrian,
        4 => CfgNav5DynModel::Automotive,
        5 => CfgNav5DynModel::Sea,
        6 => CfgNav5DynModel::AirborneWithLess1gAcceleration,
        7 => CfgNav5DynModel::AirborneWithLess2gAcceleration,
        8 => CfgNav5DynModel::AirborneWith4gAcceleration,
        9 => CfgNav5DynModel::WristWornWatch,
        10 => CfgNav5DynModel::Bike,
        _ => CfgNav5DynModel::Portable,
    }
}
pub fn en_CfgNav5FixMode(x: i64) -> CfgNav5FixMode {
    match x {
        2 => CfgNav5FixMode::Only3D,
        3 => CfgNav5FixMode::Auto2D3D,
        _ => CfgNav5FixMode::Only2D,
    }
}
pub fn en_CfgNav5UtcStandard(x: i64) -> CfgNav5UtcStandard {
    match x {
        3 => CfgNav5UtcStandard::Usno,
        6 => CfgNav5UtcStandard::UtcSu,
        7 => CfgNav5UtcStandard::UtcChina,
        _ => CfgNav5UtcStandard::Automatic,
    }
}
pub fn en_ResetMode(x: i64) -> ResetMode {
    match x {
        1 => ResetMode::ControlledSoftwareReset,
        2 => ResetMode::ControlledSoftwareResetGpsOnly,
        4 => ResetMode::HardwareResetAfterShutdown,
        8 => ResetMode::ControlledGpsStop,
        9 => ResetMode::ControlledGpsStart,
        _ => ResetMode::HardwareResetImmediately,
    }
}
pub fn en_AlignmentToReferenceTime(x: i64) -> AlignmentToReferenceTime {
    match x {
        1 => AlignmentToReferenceTime::Gps,
        2 => AlignmentToReferenceTime::Glo,
        3 => AlignmentToReferenceTime::Bds,
        4 => AlignmentToReferenceTime::Gal,
        _ => AlignmentToReferenceTime::Utc,
    }
}
pub fn fl_AntFlags(x: u16) -> AntFlags {
    let mut rest = x;
    let mut set = AntFlags::empty();
    for (f, bits) in [(AntFlags::SVCS, 0x1), (AntFlags::SCD, 0x2), (AntFlags::OCD, 0x4), (AntFlags::PDWN_ON_SCD, 0x8), (AntFlags::RECOVERY, 0x10)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | AntFlags::from_bits_truncate(rest)
}
pub fn fl_CfgInfMask(x: u8) -> CfgInfMask {
    let mut rest = x;
    let mut set = CfgInfMask::empty();
    for (f, bits) in [(CfgInfMask::ERROR, 0x1), (CfgInfMask::WARNING, 0x2), (CfgInfMask::NOTICE, 0x4), (CfgInfMask::TEST, 0x8), (CfgInfMask::DEBUG, 0x10)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgInfMask::from_bits_truncate(rest)
}
pub fn fl_CfgLayer(x: u8) -> CfgLayer {
    let mut rest = x;
    let mut set = CfgLayer::empty();
    for (f, bits) in [(CfgLayer::RAM, 0x1), (CfgLayer::BBR, 0x2), (CfgLayer::FLASH, 0x4)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgLayer::from_bits_truncate(rest)
}
pub fn fl_CfgNav5Params(x: u16) -> CfgNav5Params {
    let mut rest = x;
    let mut set = CfgNav5Params::empty();
    for (f, bits) in [(CfgNav5Params::DYN, 0x1), (CfgNav5Params::MIN_EL, 0x2), (CfgNav5Params::POS_FIX_MODE, 0x4), (CfgNav5Params::DR_LIM, 0x8), (CfgNav5Params::POS_MASK_APPLY, 0x10), (CfgNav5Params::TIME_MASK, 0x20), (CfgNav5Params::STATIC_HOLD_MASK, 0x40), (CfgNav5Params::DGPS_MASK, 0x80), (CfgNav5Params::CNO_THRESHOLD, 0x100), (CfgNav5Params::UTC, 0x400)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgNav5Params::from_bits_truncate(rest)
}
pub fn fl_CfgNavX5Params1(x: u16) -> CfgNavX5Params1 {
    let mut rest = x;
    let mut set = CfgNavX5Params1::empty();
    for (f, bits) in [(CfgNavX5Params1::MIN_MAX, 0x4), (CfgNavX5Params1::MIN_CNO, 0x8), (CfgNavX5Params1::INITIAL_3D_FIX, 0x40), (CfgNavX5Params1::WKN_ROLL, 0x200), (CfgNavX5Params1::AID_ACK, 0x400), (CfgNavX5Params1::USE_PPP, 0x2000), (CfgNavX5Params1::AOP_CFG, 0x4000)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgNavX5Params1::from_bits_truncate(rest)
}
pub fn fl_CfgNavX5Params2(x: u32) -> CfgNavX5Params2 {
    let mut rest = x;
    let mut set = CfgNavX5Params2::empty();
    for (f, bits) in [(CfgNavX5Params2::USE_ADR, 0x40), (CfgNavX5Params2::USE_SIG_ATTEN_COMP, 0x80)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgNavX5Params2::from_bits_truncate(rest)
}
pub fn fl_CfgTmode2Flags(x: u16) -> CfgTmode2Flags {
    let mut rest = x;
    let mut set = CfgTmode2Flags::empty();
    for (f, bits) in [(CfgTmode2Flags::LLA, 0x1), (CfgTmode2Flags::ALT_INVALID, 0x2)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgTmode2Flags::from_bits_truncate(rest)
}
pub fn fl_CfgTmode3Flags(x: u8) -> CfgTmode3Flags {
    let mut rest = x;
    let mut set = CfgTmode3Flags::empty();
    for (f, bits) in [(CfgTmode3Flags::LLA, 0x1)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgTmode3Flags::from_bits_truncate(rest)
}
pub fn fl_CfgTmode3RcvrMode(x: u8) -> CfgTmode3RcvrMode {
    let mut rest = x;
    let mut set = CfgTmode3RcvrMode::empty();
    for (f, bits) in [(CfgTmode3RcvrMode::DISABLED, 0x1), (CfgTmode3RcvrMode::SURVEY_IN, 0x2), (CfgTmode3RcvrMode::FIXED_MODE, 0x4)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgTmode3RcvrMode::from_bits_truncate(rest)
}
pub fn fl_CfgTp5Flags(x: u32) -> CfgTp5Flags {
    let mut rest = x;
    let mut set = CfgTp5Flags::empty();
    for (f, bits) in [(CfgTp5Flags::ACTIVE, 0x1), (CfgTp5Flags::LOCK_GNSS_FREQ, 0x2), (CfgTp5Flags::LOCKED_OTHER_SET, 0x4), (CfgTp5Flags::IS_FREQ, 0x8), (CfgTp5Flags::IS_LENGTH, 0x10), (CfgTp5Flags::ALIGN_TO_TOW, 0x20), (CfgTp5Flags::POLARITY, 0x40), (CfgTp5Flags::UTC_TIME_GRID, 0x80), (CfgTp5Flags::GPS_TIME_GRID, 0x100), (CfgTp5Flags::GLO_TIME_GRID, 0x200), (CfgTp5Flags::BDS_TIME_GRID, 0x400), (CfgTp5Flags::GAL_TIME_GRID, 0x800), (CfgTp5Flags::SYNC_MODE_0, 0x1000), (CfgTp5Flags::SYNC_MODE_1, 0x2000)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | CfgTp5Flags::from_bits_truncate(rest)
}
pub fn fl_InProtoMask(x: u16) -> InProtoMask {
    let mut rest = x;
    let mut set = InProtoMask::empty();
    for (f, bits) in [(InProtoMask::UBLOX, 0x1), (InProtoMask::NMEA, 0x2), (InProtoMask::RTCM, 0x4), (InProtoMask::RTCM3, 0x20)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | InProtoMask::from_bits_truncate(rest)
}
pub fn fl_NavBbrMask(x: u16) -> NavBbrMask {
    let mut rest = x;
    let mut set = NavBbrMask::empty();
    for (f, bits) in [(NavBbrMask::EPHEMERIS, 0x1), (NavBbrMask::ALMANACH, 0x2), (NavBbrMask::HEALTH, 0x4), (NavBbrMask::KLOBUCHARD, 0x8), (NavBbrMask::POSITION, 0x10), (NavBbrMask::CLOCK_DRIFT, 0x20), (NavBbrMask::OSCILATOR_PARAMETER, 0x40), (NavBbrMask::UTC_CORRECTION_PARAMETERS, 0x80), (NavBbrMask::RTC, 0x100), (NavBbrMask::SFDR_PARAMETERS, 0x800), (NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS, 0x1000), (NavBbrMask::TCT_PARAMETERS, 0x2000), (NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS, 0x8000)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | NavBbrMask::from_bits_truncate(rest)
}
pub fn fl_OdoCogFilterFlags(x: u8) -> OdoCogFilterFlags {
    let mut rest = x;
    let mut set = OdoCogFilterFlags::empty();
    for (f, bits) in [(OdoCogFilterFlags::USE_ODO, 0x1), (OdoCogFilterFlags::USE_COG, 0x2), (OdoCogFilterFlags::OUT_LP_VEL, 0x4), (OdoCogFilterFlags::OUT_LP_COG, 0x8)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | OdoCogFilterFlags::from_bits_truncate(rest)
}
pub fn fl_OutProtoMask(x: u16) -> OutProtoMask {
    let mut rest = x;
    let mut set = OutProtoMask::empty();
    for (f, bits) in [(OutProtoMask::UBLOX, 0x1), (OutProtoMask::NMEA, 0x2), (OutProtoMask::RTCM3, 0x20)] {
        if x & bits == bits {
            set |= f;
            rest &= !bits;
        }
    }
    set | OutProtoMask::from_bits_truncate(rest)
}
pub fn new_CfgOdo(get: &dyn Fn(&str) -> Option<V>) -> CfgOdoBuilder {
    CfgOdoBuilder {
        version: { let v = &get("version"); num(v) as u8 },
        reserved: { let v = &get("reserved"); bytes_of(v) },
        flags: { let v = &get("flags"); fl_OdoCogFilterFlags(num(v) as u8) },
        odo_cfg: { let v = &get("odo_cfg"); en_OdoProfile(num(v)) },
        reserved2: { let v = &get("reserved2"); bytes_of(v) },
        cog_max_speed: { let v = &get("cog_max_speed"); num(v) as u8 },
        cog_max_pos_acc: { let v = &get("cog_max_pos_acc"); num(v) as u8 },
        reserved3: { let v = &get("reserved3"); bytes_of(v) },
        vel_lp_gain: { let v = &get("vel_lp_gain"); num(v) as u8 },
        cog_lp_gain: { let v = &get("cog_lp_gain"); num(v) as u8 },
        reserved4: { let v = &get("reserved4"); bytes_of(v) },
    }
}
pub fn set_CfgOdo(b: &mut CfgOdoBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "version" => b.version = num(v) as u8,
        "reserved" => b.reserved = bytes_of(v),
        "flags" => b.flags = fl_OdoCogFilterFlags(num(v) as u8),
        "odo_cfg" => b.odo_cfg = en_OdoProfile(num(v)),
        "reserved2" => b.reserved2 = bytes_of(v),
        "cog_max_speed" => b.cog_max_speed = num(v) as u8,
        "cog_max_pos_acc" => b.cog_max_pos_acc = num(v) as u8,
        "reserved3" => b.reserved3 = bytes_of(v),
        "vel_lp_gain" => b.vel_lp_gain = num(v) as u8,
        "cog_lp_gain" => b.cog_lp_gain = num(v) as u8,
        "reserved4" => b.reserved4 = bytes_of(v),
        _ => {},
    }
}
pub fn copy_CfgOdo(r: &CfgOdoRef<'_>) -> CfgOdoBuilder {
    CfgOdoBuilder {
        version: r.version(),
        reserved: [0; 3],
        flags: r.flags(),
        odo_cfg: r.odo_cfg(),
        reserved2: [0; 6],
        cog_max_speed: r.cog_max_speed(),
        cog_max_pos_acc: r.cog_max_pos_acc(),
        reserved3: [0; 2],
        vel_lp_gain: r.vel_lp_gain(),
        cog_lp_gain: r.cog_lp_gain(),
        reserved4: [0; 2],
    }
}
pub fn new_CfgItfm(get: &dyn Fn(&str) -> Option<V>) -> CfgItfmBuilder {
    CfgItfmBuilder {
        config: { let v = &get("config"); itfm(num(v)) },
        config2: { let v = &get("config2"); itfm2(num(v)) },
    }
}
pub fn set_CfgItfm(b: &mut CfgItfmBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "config" => b.config = itfm(num(v)),
        "config2" => b.config2 = itfm2(num(v)),
        _ => {},
    }
}
pub fn copy_CfgItfm(r: &CfgItfmRef<'_>) -> CfgItfmBuilder {
    CfgItfmBuilder {
        config: r.config(),
        config2: r.config2(),
    }
}
pub fn new_CfgInf(get: &dyn Fn(&str) -> Option<V>) -> CfgInfBuilder {
    CfgInfBuilder {
        protocol_id: { let v = &get("protocol_id"); num(v) as u8 },
        reserved: { let v = &get("reserved"); bytes_of(v) },
        inf_msg_mask_0: { let v = &get("inf_msg_mask_0"); fl_CfgInfMask(num(v) as u8) },
        inf_msg_mask_1: { let v = &get("inf_msg_mask_1"); fl_CfgInfMask(num(v) as u8) },
        inf_msg_mask_2: { let v = &get("inf_msg_mask_2"); fl_CfgInfMask(num(v) as u8) },
        inf_msg_mask_3: { let v = &get("inf_msg_mask_3"); fl_CfgInfMask(num(v) as u8) },
        inf_msg_mask_4: { let v = &get("inf_msg_mask_4"); fl_CfgInfMask(num(v) as u8) },
        inf_msg_mask_5: { let v = &get("inf_msg_mask_5"); fl_CfgInfMask(num(v) as u8) },
    }
}
pub fn set_CfgInf(b: &mut CfgInfBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "protocol_id" => b.protocol_id = num(v) as u8,
        "reserved" => b.reserved = bytes_of(v),
        "inf_msg_mask_0" => b.inf_msg_mask_0 = fl_CfgInfMask(num(v) as u8),
        "inf_msg_mask_1" => b.inf_msg_mask_1 = fl_CfgInfMask(num(v) as u8),
        "inf_msg_mask_2" => b.inf_msg_mask_2 = fl_CfgInfMask(num(v) as u8),
        "inf_msg_mask_3" => b.inf_msg_mask_3 = fl_CfgInfMask(num(v) as u8),
        "inf_msg_mask_4" => b.inf_msg_mask_4 = fl_CfgInfMask(num(v) as u8),
        "inf_msg_mask_5" => b.inf_msg_mask_5 = fl_CfgInfMask(num(v) as u8),
        _ => {},
    }
}
pub fn copy_CfgInf(r: &CfgInfRef<'_>) -> CfgInfBuilder {
    CfgInfBuilder {
        protocol_id: r.protocol_id(),
        reserved: [0; 3],
        inf_msg_mask_0: r.inf_msg_mask_0(),
        inf_msg_mask_1: r.inf_msg_mask_1(),
        inf_msg_mask_2: r.inf_msg_mask_2(),
        inf_msg_mask_3: r.inf_msg_mask_3(),
        inf_msg_mask_4: r.inf_msg_mask_4(),
        inf_msg_mask_5: r.inf_msg_mask_5(),
    }
}
pub fn new_AidIni(get: &dyn Fn(&str) -> Option<V>) -> AidIniBuilder {
    AidIniBuilder {
        ecef_x_or_lat: { let v = &get("ecef_x_or_lat"); num(v) as i32 },
        ecef_y_or_lon: { let v = &get("ecef_y_or_lon"); num(v) as i32 },
        ecef_z_or_alt: { let v = &get("ecef_z_or_alt"); num(v) as i32 },
        pos_accuracy: { let v = &get("pos_accuracy"); num(v) as u32 },
        time_cfg: { let v = &get("time_cfg"); num(v) as u16 },
        week_or_ym: { let v = &get("week_or_ym"); num(v) as u16 },
        tow_or_hms: { let v = &get("tow_or_hms"); num(v) as u32 },
        tow_ns: { let v = &get("tow_ns"); num(v) as i32 },
        tm_accuracy_ms: { let v = &get("tm_accuracy_ms"); num(v) as u32 },
        tm_accuracy_ns: { let v = &get("tm_accuracy_ns"); num(v) as u32 },
        clk_drift_or_freq: { let v = &get("clk_drift_or_freq"); num(v) as i32 },
        clk_drift_or_freq_accuracy: { let v = &get("clk_drift_or_freq_accuracy"); num(v) as u32 },
        flags: { let v = &get("flags"); num(v) as u32 },
    }
}
pub fn set_AidIni(b: &mut AidIniBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "ecef_x_or_lat" => b.ecef_x_or_lat = num(v) as i32,
        "ecef_y_or_lon" => b.ecef_y_or_lon = num(v) as i32,
        "ecef_z_or_alt" => b.ecef_z_or_alt = num(v) as i32,
        "pos_accuracy" => b.pos_accuracy = num(v) as u32,
        "time_cfg" => b.time_cfg = num(v) as u16,
        "week_or_ym" => b.week_or_ym = num(v) as u16,
        "tow_or_hms" => b.tow_or_hms = num(v) as u32,
        "tow_ns" => b.tow_ns = num(v) as i32,
        "tm_accuracy_ms" => b.tm_accuracy_ms = num(v) as u32,
        "tm_accuracy_ns" => b.tm_accuracy_ns = num(v) as u32,
        "clk_drift_or_freq" => b.clk_drift_or_freq = num(v) as i32,
        "clk_drift_or_freq_accuracy" => b.clk_drift_or_freq_accuracy = num(v) as u32,
        "flags" => b.flags = num(v) as u32,
        _ => {},
    }
}
pub fn new_CfgRst(get: &dyn Fn(&str) -> Option<V>) -> CfgRstBuilder {
    CfgRstBuilder {
        nav_bbr_mask: { let v = &get("nav_bbr_mask"); fl_NavBbrMask(num(v) as u16) },
        reset_mode: { let v = &get("reset_mode"); en_ResetMode(num(v)) },
        reserved1: { let v = &get("reserved1"); num(v) as u8 },
    }
}
pub fn set_CfgRst(b: &mut CfgRstBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "nav_bbr_mask" => b.nav_bbr_mask = fl_NavBbrMask(num(v) as u16),
        "reset_mode" => b.reset_mode = en_ResetMode(num(v)),
        "reserved1" => b.reserved1 = num(v) as u8,
        _ => {},
    }
}
pub fn new_CfgAnt(get: &dyn Fn(&str) -> Option<V>) -> CfgAntBuilder {
    CfgAntBuilder {
        flags: { let v = &get("flags"); fl_AntFlags(num(v) as u16) },
        pins: { let v = &get("pins"); num(v) as u16 },
    }
}
pub fn set_CfgAnt(b: &mut CfgAntBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "flags" => b.flags = fl_AntFlags(num(v) as u16),
        "pins" => b.pins = num(v) as u16,
        _ => {},
    }
}
pub fn copy_CfgAnt(r: &CfgAntRef<'_>) -> CfgAntBuilder {
    CfgAntBuilder {
        flags: r.flags(),
        pins: r.pins(),
    }
}
pub fn new_CfgTp5(get: &dyn Fn(&str) -> Option<V>) -> CfgTp5Builder {
    CfgTp5Builder {
        tp_idx: { let v = &get("tp_idx"); en_CfgTp5TimePulseMode(num(v)) },
        version: { let v = &get("version"); num(v) as u8 },
        reserved1: { let v = &get("reserved1"); bytes_of(v) },
        ant_cable_delay: { let v = &get("ant_cable_delay"); flt(v) as f32 },
        rf_group_delay: { let v = &get("rf_group_delay"); flt(v) as f32 },
        freq_period: { let v = &get("freq_period"); flt(v) as f64 },
        freq_period_lock: { let v = &get("freq_period_lock"); flt(v) as f64 },
        pulse_len_ratio: { let v = &get("pulse_len_ratio"); flt(v) as f64 },
        pulse_len_ratio_lock: { let v = &get("pulse_len_ratio_lock"); flt(v) as f64 },
        user_delay: { let v = &get("user_delay"); flt(v) as f64 },
        flags: { let v = &get("flags"); fl_CfgTp5Flags(num(v) as u32) },
    }
}
pub fn set_CfgTp5(b: &mut CfgTp5Builder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "tp_idx" => b.tp_idx = en_CfgTp5TimePulseMode(num(v)),
        "version" => b.version = num(v) as u8,
        "reserved1" => b.reserved1 = bytes_of(v),
        "ant_cable_delay" => b.ant_cable_delay = flt(v) as f32,
        "rf_group_delay" => b.rf_group_delay = flt(v) as f32,
        "freq_period" => b.freq_period = flt(v) as f64,
        "freq_period_lock" => b.freq_period_lock = flt(v) as f64,
        "pulse_len_ratio" => b.pulse_len_ratio = flt(v) as f64,
        "pulse_len_ratio_lock" => b.pulse_len_ratio_lock = flt(v) as f64,
        "user_delay" => b.user_delay = flt(v) as f64,
        "flags" => b.flags = fl_CfgTp5Flags(num(v) as u32),
        _ => {},
    }
}
pub fn copy_CfgTp5(r: &CfgTp5Ref<'_>) -> CfgTp5Builder {
    CfgTp5Builder {
        tp_idx: r.tp_idx(),
        version: r.version(),
        reserved1: [0; 2],
        ant_cable_delay: r.ant_cable_delay(),
        rf_group_delay: r.rf_group_delay(),
        freq_period: r.freq_period(),
        freq_period_lock: r.freq_period_lock(),
        pulse_len_ratio: r.pulse_len_ratio(),
        pulse_len_ratio_lock: r.pulse_len_ratio_lock(),
        user_delay: r.user_delay(),
        flags: r.flags(),
    }
}
pub fn new_CfgTmode2(get: &dyn Fn(&str) -> Option<V>) -> CfgTmode2Builder {
    CfgTmode2Builder {
        time_transfer_mode: { let v = &get("time_transfer_mode"); en_CfgTmode2TimeXferModes(num(v)) },
        reserved1: { let v = &get("reserved1"); num(v) as u8 },
        flags: { let v = &get("flags"); fl_CfgTmode2Flags(num(v) as u16) },
        ecef_x_or_lat: { let v = &get("ecef_x_or_lat"); flt(v) as f64 },
        ecef_y_or_lon: { let v = &get("ecef_y_or_lon"); flt(v) as f64 },
        ecef_z_or_alt: { let v = &get("ecef_z_or_alt"); flt(v) as f64 },
        fixed_pos_acc: { let v = &get("fixed_pos_acc"); flt(v) as f64 },
        survey_in_min_duration: { let v = &get("survey_in_min_duration"); num(v) as u32 },
        survery_in_accur_limit: { let v = &get("survery_in_accur_limit"); flt(v) as f64 },
    }
}
pub fn set_CfgTmode2(b: &mut CfgTmode2Builder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "time_transfer_mode" => b.time_transfer_mode = en_CfgTmode2TimeXferModes(num(v)),
        "reserved1" => b.reserved1 = num(v) as u8,
        "flags" => b.flags = fl_CfgTmode2Flags(num(v) as u16),
        "ecef_x_or_lat" => b.ecef_x_or_lat = flt(v) as f64,
        "ecef_y_or_lon" => b.ecef_y_or_lon = flt(v) as f64,
        "ecef_z_or_alt" => b.ecef_z_or_alt = flt(v) as f64,
        "fixed_pos_acc" => b.fixed_pos_acc = flt(v) as f64,
        "survey_in_min_duration" => b.survey_in_min_duration = num(v) as u32,
        "survery_in_accur_limit" => b.survery_in_accur_limit = flt(v) as f64,
        _ => {},
    }
}
pub fn copy_CfgTmode2(r: &CfgTmode2Ref<'_>) -> CfgTmode2Builder {
    CfgTmode2Builder {
        time_transfer_mode: r.time_transfer_mode(),
        reserved1: r.reserved1(),
        flags: r.flags(),
        ecef_x_or_lat: r.ecef_x_or_lat(),
        ecef_y_or_lon: r.ecef_y_or_lon(),
        ecef_z_or_alt: r.ecef_z_or_alt(),
        fixed_pos_acc: r.fixed_pos_acc(),
        survey_in_min_duration: r.survey_in_min_duration(),
        survery_in_accur_limit: r.survery_in_accur_limit(),
    }
}
pub fn new_CfgTmode3(get: &dyn Fn(&str) -> Option<V>) -> CfgTmode3Builder {
    CfgTmode3Builder {
        version: { let v = &get("version"); num(v) as u8 },
        reserved1: { let v = &get("reserved1"); num(v) as u8 },
        rcvr_mode: { let v = &get("rcvr_mode"); fl_CfgTmode3RcvrMode(num(v) as u8) },
        flags: { let v = &get("flags"); fl_CfgTmode3Flags(num(v) as u8) },
        ecef_x_or_lat: { let v = &get("ecef_x_or_lat"); flt(v) as f64 },
        ecef_y_or_lon: { let v = &get("ecef_y_or_lon"); flt(v) as f64 },
        ecef_z_or_alt: { let v = &get("ecef_z_or_alt"); flt(v) as f64 },
        ecef_x_or_lat_hp: { let v = &get("ecef_x_or_lat_hp"); flt(v) as f32 },
        ecef_y_or_lon_hp: { let v = &get("ecef_y_or_lon_hp"); flt(v) as f32 },
        ecef_z_or_alt_hp: { let v = &get("ecef_z_or_alt_hp"); flt(v) as f32 },
        reserved2: { let v = &get("reserved2"); num(v) as u8 },
        fixed_pos_acc: { let v = &get("fixed_pos_acc"); flt(v) as f64 },
        sv_in_min_duration: { let v = &get("sv_in_min_duration"); num(v) as u32 },
        sv_in_accur_limit: { let v = &get("sv_in_accur_limit"); flt(v) as f64 },
        reserved3: { let v = &get("reserved3"); bytes_of(v) },
    }
}
pub fn set_CfgTmode3(b: &mut CfgTmode3Builder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "version" => b.version = num(v) as u8,
        "reserved1" => b.reserved1 = num(v) as u8,
        "rcvr_mode" => b.rcvr_mode = fl_CfgTmode3RcvrMode(num(v) as u8),
        "flags" => b.flags = fl_CfgTmode3Flags(num(v) as u8),
        "ecef_x_or_lat" => b.ecef_x_or_lat = flt(v) as f64,
        "ecef_y_or_lon" => b.ecef_y_or_lon = flt(v) as f64,
        "ecef_z_or_alt" => b.ecef_z_or_alt = flt(v) as f64,
        "ecef_x_or_lat_hp" => b.ecef_x_or_lat_hp = flt(v) as f32,
        "ecef_y_or_lon_hp" => b.ecef_y_or_lon_hp = flt(v) as f32,
        "ecef_z_or_alt_hp" => b.ecef_z_or_alt_hp = flt(v) as f32,
        "reserved2" => b.reserved2 = num(v) as u8,
        "fixed_pos_acc" => b.fixed_pos_acc = flt(v) as f64,
        "sv_in_min_duration" => b.sv_in_min_duration = num(v) as u32,
        "sv_in_accur_limit" => b.sv_in_accur_limit = flt(v) as f64,
        "reserved3" => b.reserved3 = bytes_of(v),
        _ => {},
    }
}
pub fn copy_CfgTmode3(r: &CfgTmode3Ref<'_>) -> CfgTmode3Builder {
    CfgTmode3Builder {
        version: r.version(),
        reserved1: r.reserved1(),
        rcvr_mode: r.rcvr_mode(),
        flags: r.flags(),
        ecef_x_or_lat: r.ecef_x_or_lat(),
        ecef_y_or_lon: r.ecef_y_or_lon(),
        ecef_z_or_alt: r.ecef_z_or_alt(),
        ecef_x_or_lat_hp: r.ecef_x_or_lat_hp(),
        ecef_y_or_lon_hp: r.ecef_y_or_lon_hp(),
        ecef_z_or_alt_hp: r.ecef_z_or_alt_hp(),
        reserved2: r.reserved2(),
        fixed_pos_acc: r.fixed_pos_acc(),
        sv_in_min_duration: r.sv_in_min_duration(),
        sv_in_accur_limit: r.sv_in_accur_limit(),
        reserved3: [0; 8],
    }
}
pub fn new_CfgPrtI2c(get: &dyn Fn(&str) -> Option<V>) -> CfgPrtI2cBuilder {
    CfgPrtI2cBuilder {
        portid: { let v = &get("portid"); en_I2cPortId(num(v)) },
        reserved1: { let v = &get("reserved1"); num(v) as u8 },
        tx_ready: { let v = &get("tx_ready"); num(v) as u16 },
        mode: { let v = &get("mode"); num(v) as u32 },
        reserved2: { let v = &get("reserved2"); num(v) as u32 },
        in_proto_mask: { let v = &get("in_proto_mask"); fl_InProtoMask(num(v) as u16) },
        out_proto_mask: { let v = &get("out_proto_mask"); fl_OutProtoMask(num(v) as u16) },
        flags: { let v = &get("flags"); num(v) as u16 },
        reserved3: { let v = &get("reserved3"); num(v) as u16 },
    }
}
pub fn set_CfgPrtI2c(b: &mut CfgPrtI2cBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "portid" => b.portid = en_I2cPortId(num(v)),
        "reserved1" => b.reserved1 = num(v) as u8,
        "tx_ready" => b.tx_ready = num(v) as u16,
        "mode" => b.mode = num(v) as u32,
        "reserved2" => b.reserved2 = num(v) as u32,
        "in_proto_mask" => b.in_proto_mask = fl_InProtoMask(num(v) as u16),
        "out_proto_mask" => b.out_proto_mask = fl_OutProtoMask(num(v) as u16),
        "flags" => b.flags = num(v) as u16,
        "reserved3" => b.reserved3 = num(v) as u16,
        _ => {},
    }
}
pub fn copy_CfgPrtI2c(r: &CfgPrtI2cRef<'_>) -> CfgPrtI2cBuilder {
    CfgPrtI2cBuilder {
        portid: r.portid(),
        reserved1: r.reserved1(),
        tx_ready: r.tx_ready(),
        mode: r.mode(),
        reserved2: r.reserved2(),
        in_proto_mask: r.in_proto_mask(),
        out_proto_mask: r.out_proto_mask(),
        flags: r.flags(),
        reserved3: r.reserved3(),
    }
}
pub fn new_CfgPrtUart(get: &dyn Fn(&str) -> Option<V>) -> CfgPrtUartBuilder {
    CfgPrtUartBuilder {
        portid: { let v = &get("portid"); en_UartPortId(num(v)) },
        reserved0: { let v = &get("reserved0"); num(v) as u8 },
        tx_ready: { let v = &get("tx_ready"); num(v) as u16 },
        mode: { let v = &get("mode"); uart_mode(num(v)) },
        baud_rate: { let v = &get("baud_rate"); num(v) as u32 },
        in_proto_mask: { let v = &get("in_proto_mask"); fl_InProtoMask(num(v) as u16) },
        out_proto_mask: { let v = &get("out_proto_mask"); fl_OutProtoMask(num(v) as u16) },
        flags: { let v = &get("flags"); num(v) as u16 },
        reserved5: { let v = &get("reserved5"); num(v) as u16 },
    }
}
pub fn set_CfgPrtUart(b: &mut CfgPrtUartBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "portid" => b.portid = en_UartPortId(num(v)),
        "reserved0" => b.reserved0 = num(v) as u8,
        "tx_ready" => b.tx_ready = num(v) as u16,
        "mode" => b.mode = uart_mode(num(v)),
        "baud_rate" => b.baud_rate = num(v) as u32,
        "in_proto_mask" => b.in_proto_mask = fl_InProtoMask(num(v) as u16),
        "out_proto_mask" => b.out_proto_mask = fl_OutProtoMask(num(v) as u16),
        "flags" => b.flags = num(v) as u16,
        "reserved5" => b.reserved5 = num(v) as u16,
        _ => {},
    }
}
pub fn copy_CfgPrtUart(r: &CfgPrtUartRef<'_>) -> CfgPrtUartBuilder {
    CfgPrtUartBuilder {
        portid: r.portid(),
        reserved0: r.reserved0(),
        tx_ready: r.tx_ready(),
        mode: r.mode(),
        baud_rate: r.baud_rate(),
        in_proto_mask: r.in_proto_mask(),
        out_proto_mask: r.out_proto_mask(),
        flags: r.flags(),
        reserved5: r.reserved5(),
    }
}
pub fn new_CfgPrtSpi(get: &dyn Fn(&str) -> Option<V>) -> CfgPrtSpiBuilder {
    CfgPrtSpiBuilder {
        portid: { let v = &get("portid"); en_SpiPortId(num(v)) },
        reserved0: { let v = &get("reserved0"); num(v) as u8 },
        tx_ready: { let v = &get("tx_ready"); num(v) as u16 },
        mode: { let v = &get("mode"); num(v) as u32 },
        reserved3: { let v = &get("reserved3"); num(v) as u32 },
        in_proto_mask: { let v = &get("in_proto_mask"); fl_InProtoMask(num(v) as u16) },
        out_proto_mask: { let v = &get("out_proto_mask"); fl_OutProtoMask(num(v) as u16) },
        flags: { let v = &get("flags"); num(v) as u16 },
        reserved5: { let v = &get("reserved5"); num(v) as u16 },
    }
}
pub fn set_CfgPrtSpi(b: &mut CfgPrtSpiBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "portid" => b.portid = en_SpiPortId(num(v)),
        "reserved0" => b.reserved0 = num(v) as u8,
        "tx_ready" => b.tx_ready = num(v) as u16,
        "mode" => b.mode = num(v) as u32,
        "reserved3" => b.reserved3 = num(v) as u32,
        "in_proto_mask" => b.in_proto_mask = fl_InProtoMask(num(v) as u16),
        "out_proto_mask" => b.out_proto_mask = fl_OutProtoMask(num(v) as u16),
        "flags" => b.flags = num(v) as u16,
        "reserved5" => b.reserved5 = num(v) as u16,
        _ => {},
    }
}
pub fn copy_CfgPrtSpi(r: &CfgPrtSpiRef<'_>) -> CfgPrtSpiBuilder {
    CfgPrtSpiBuilder {
        portid: r.portid(),
        reserved0: r.reserved0(),
        tx_ready: r.tx_ready(),
        mode: r.mode(),
        reserved3: r.reserved3(),
        in_proto_mask: r.in_proto_mask(),
        out_proto_mask: r.out_proto_mask(),
        flags: r.flags(),
        reserved5: r.reserved5(),
    }
}
pub fn new_CfgRate(get: &dyn Fn(&str) -> Option<V>) -> CfgRateBuilder {
    CfgRateBuilder {
        measure_rate_ms: { let v = &get("measure_rate_ms"); num(v) as u16 },
        nav_rate: { let v = &get("nav_rate"); num(v) as u16 },
        time_ref: { let v = &get("time_ref"); en_AlignmentToReferenceTime(num(v)) },
    }
}
pub fn set_CfgRate(b: &mut CfgRateBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "measure_rate_ms" => b.measure_rate_ms = num(v) as u16,
        "nav_rate" => b.nav_rate = num(v) as u16,
        "time_ref" => b.time_ref = en_AlignmentToReferenceTime(num(v)),
        _ => {},
    }
}
pub fn new_CfgMsgSinglePort(get: &dyn Fn(&str) -> Option<V>) -> CfgMsgSinglePortBuilder {
    CfgMsgSinglePortBuilder {
        msg_class: { let v = &get("msg_class"); num(v) as u8 },
        msg_id: { let v = &get("msg_id"); num(v) as u8 },
        rate: { let v = &get("rate"); num(v) as u8 },
    }
}
pub fn set_CfgMsgSinglePort(b: &mut CfgMsgSinglePortBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "msg_class" => b.msg_class = num(v) as u8,
        "msg_id" => b.msg_id = num(v) as u8,
        "rate" => b.rate = num(v) as u8,
        _ => {},
    }
}
pub fn new_CfgMsgAllPorts(get: &dyn Fn(&str) -> Option<V>) -> CfgMsgAllPortsBuilder {
    CfgMsgAllPortsBuilder {
        msg_class: { let v = &get("msg_class"); num(v) as u8 },
        msg_id: { let v = &get("msg_id"); num(v) as u8 },
        rates: { let v = &get("rates"); bytes_of(v) },
    }
}
pub fn set_CfgMsgAllPorts(b: &mut CfgMsgAllPortsBuilder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "msg_class" => b.msg_class = num(v) as u8,
        "msg_id" => b.msg_id = num(v) as u8,
        "rates" => b.rates = bytes_of(v),
        _ => {},
    }
}
pub fn new_CfgNav5(get: &dyn Fn(&str) -> Option<V>) -> CfgNav5Builder {
    CfgNav5Builder {
        mask: { let v = &get("mask"); fl_CfgNav5Params(num(v) as u16) },
        dyn_model: { let v = &get("dyn_model"); en_CfgNav5DynModel(num(v)) },
        fix_mode: { let v = &get("fix_mode"); en_CfgNav5FixMode(num(v)) },
        fixed_alt: { let v = &get("fixed_alt"); flt(v) as f64 },
        fixed_alt_var: { let v = &get("fixed_alt_var"); flt(v) as f64 },
        min_elev_degrees: { let v = &get("min_elev_degrees"); num(v) as i8 },
        dr_limit: { let v = &get("dr_limit"); num(v) as u8 },
        pdop: { let v = &get("pdop"); flt(v) as f32 },
        tdop: { let v = &get("tdop"); flt(v) as f32 },
        pacc: { let v = &get("pacc"); num(v) as u16 },
        tacc: { let v = &get("tacc"); num(v) as u16 },
        static_hold_thresh: { let v = &get("static_hold_thresh"); flt(v) as f32 },
        dgps_time_out: { let v = &get("dgps_time_out"); num(v) as u8 },
        cno_thresh_num_svs: { let v = &get("cno_thresh_num_svs"); num(v) as u8 },
        cno_thresh: { let v = &get("cno_thresh"); num(v) as u8 },
        reserved1: { let v = &get("reserved1"); bytes_of(v) },
        static_hold_max_dist: { let v = &get("static_hold_max_dist"); num(v) as u16 },
        utc_standard: { let v = &get("utc_standard"); en_CfgNav5UtcStandard(num(v)) },
        reserved2: { let v = &get("reserved2"); bytes_of(v) },
    }
}
pub fn set_CfgNav5(b: &mut CfgNav5Builder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "mask" => b.mask = fl_CfgNav5Params(num(v) as u16),
        "dyn_model" => b.dyn_model = en_CfgNav5DynModel(num(v)),
        "fix_mode" => b.fix_mode = en_CfgNav5FixMode(num(v)),
        "fixed_alt" => b.fixed_alt = flt(v) as f64,
        "fixed_alt_var" => b.fixed_alt_var = flt(v) as f64,
        "min_elev_degrees" => b.min_elev_degrees = num(v) as i8,
        "dr_limit" => b.dr_limit = num(v) as u8,
        "pdop" => b.pdop = flt(v) as f32,
        "tdop" => b.tdop = flt(v) as f32,
        "pacc" => b.pacc = num(v) as u16,
        "tacc" => b.tacc = num(v) as u16,
        "static_hold_thresh" => b.static_hold_thresh = flt(v) as f32,
        "dgps_time_out" => b.dgps_time_out = num(v) as u8,
        "cno_thresh_num_svs" => b.cno_thresh_num_svs = num(v) as u8,
        "cno_thresh" => b.cno_thresh = num(v) as u8,
        "reserved1" => b.reserved1 = bytes_of(v),
        "static_hold_max_dist" => b.static_hold_max_dist = num(v) as u16,
        "utc_standard" => b.utc_standard = en_CfgNav5UtcStandard(num(v)),
        "reserved2" => b.reserved2 = bytes_of(v),
        _ => {},
    }
}
pub fn copy_CfgNav5(r: &CfgNav5Ref<'_>) -> CfgNav5Builder {
    CfgNav5Builder {
        mask: r.mask(),
        dyn_model: r.dyn_model(),
        fix_mode: r.fix_mode(),
        fixed_alt: r.fixed_alt(),
        fixed_alt_var: r.fixed_alt_var(),
        min_elev_degrees: r.min_elev_degrees(),
        dr_limit: r.dr_limit(),
        pdop: r.pdop(),
        tdop: r.tdop(),
        pacc: r.pacc(),
        tacc: r.tacc(),
        static_hold_thresh: r.static_hold_thresh(),
        dgps_time_out: r.dgps_time_out(),
        cno_thresh_num_svs: r.cno_thresh_num_svs(),
        cno_thresh: r.cno_thresh(),
        reserved1: [0; 2],
        static_hold_max_dist: r.static_hold_max_dist(),
        utc_standard: r.utc_standard(),
        reserved2: [0; 5],
    }
}
pub fn new_CfgNavX5(get: &dyn Fn(&str) -> Option<V>) -> CfgNavX5Builder {
    CfgNavX5Builder {
        version: { let v = &get("version"); num(v) as u16 },
        mask1: { let v = &get("mask1"); fl_CfgNavX5Params1(num(v) as u16) },
        mask2: { let v = &get("mask2"); fl_CfgNavX5Params2(num(v) as u32) },
        reserved1: { let v = &get("reserved1"); bytes_of(v) },
        min_svs: { let v = &get("min_svs"); num(v) as u8 },
        max_svs: { let v = &get("max_svs"); num(v) as u8 },
        min_cno_dbhz: { let v = &get("min_cno_dbhz"); num(v) as u8 },
        reserved2: { let v = &get("reserved2"); num(v) as u8 },
        ini_fix_3d: { let v = &get("ini_fix_3d"); num(v) as u8 },
        reserved3: { let v = &get("reserved3"); bytes_of(v) },
        ack_aiding: { let v = &get("ack_aiding"); num(v) as u8 },
        wkn_rollover: { let v = &get("wkn_rollover"); num(v) as u16 },
        sig_atten_comp_mode: { let v = &get("sig_atten_comp_mode"); num(v) as u8 },
        reserved4: { let v = &get("reserved4"); num(v) as u8 },
        reserved5: { let v = &get("reserved5"); bytes_of(v) },
        reserved6: { let v = &get("reserved6"); bytes_of(v) },
        use_ppp: { let v = &get("use_ppp"); num(v) as u8 },
        aop_cfg: { let v = &get("aop_cfg"); num(v) as u8 },
        reserved7: { let v = &get("reserved7"); bytes_of(v) },
        aop_orb_max_err: { let v = &get("aop_orb_max_err"); num(v) as u16 },
        reserved8: { let v = &get("reserved8"); bytes_of(v) },
        reserved9: { let v = &get("reserved9"); bytes_of(v) },
        use_adr: { let v = &get("use_adr"); num(v) as u8 },
    }
}
pub fn set_CfgNavX5(b: &mut CfgNavX5Builder, f: &str, x: &V) {
    let v = &Some(x.clone());
    match f {
        "version" => b.version = num(v) as u16,
        "mask1" => b.mask1 = fl_CfgNavX5Params1(num(v) as u16),
        "mask2" => b.mask2 = fl_CfgNavX5Params2(num(v) as u32),
        "reserved1" => b.reserved1 = bytes_of(v),
        "min_svs" => b.min_svs = num(v) as u8,
        "max_svs" => b.max_svs = num(v) as u8,
        "min_cno_dbhz" => b.min_cno_dbhz = num(v) as u8,
        "reserved2" => b.reserved2 = num(v) as u8,
        "ini_fix_3d" => b.ini_fix_3d = num(v) as u8,
        "reserved3" => b.reserved3 = bytes_of(v),
        "ack_aiding" => b.ack_aiding = num(v) as u8,
        "wkn_rollover" => b.wkn_rollover = num(v) as u16,
        "sig_atten_comp_mode" => b.sig_atten_comp_mode = num(v) as u8,
        "reserved4" => b.reserved4 = num(v) as u8,
        "reserved5" => b.reserved5 = bytes_of(v),
        "reserved6" => b.reserved6 = bytes_of(v),
        "use_ppp" => b.use_ppp = num(v) as u8,
        "aop_cfg" => b.aop_cfg = num(v) as u8,
        "reserved7" => b.reserved7 = bytes_of(v),
        "aop_orb_max_err" => b.aop_orb_max_err = num(v) as u16,
        "reserved8" => b.reserved8 = bytes_of(v),
        "reserved9" => b.reserved9 = bytes_of(v),
        "use_adr" => b.use_adr = num(v) as u8,
        _ => {},
    }
}
pub fn copy_CfgNavX5(r: &CfgNavX5Ref<'_>) -> CfgNavX5Builder {
    CfgNavX5Builder {
        version: r.version(),
        mask1: r.mask1(),
        mask2: r.mask2(),
        reserved1: [0; 2],
        min_svs: r.min_svs(),
        max_svs: r.max_svs(),
        min_cno_dbhz: r.min_cno_dbhz(),
        reserved2: r.reserved2(),
        ini_fix_3d: r.ini_fix_3d(),
        reserved3: [0; 2],
        ack_aiding: r.ack_aiding(),
        wkn_rollover: r.wkn_rollover(),
        sig_atten_comp_mode: r.sig_atten_comp_mode(),
        reserved4: r.reserved4(),
        reserved5: [0; 2],
        reserved6: [0; 2],
        use_ppp: r.use_ppp(),
        aop_cfg: r.aop_cfg(),
        reserved7: [0; 2],
        aop_orb_max_err: r.aop_orb_max_err(),
        reserved8: [0; 4],
        reserved9: [0; 3],
        use_adr: r.use_adr(),
    }
}
impl crate::cmd::ToArr for NavResetOdoBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; NavResetOdoBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgOdoBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgOdoBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgItfmBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgItfmBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgInfBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgInfBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for AidIniBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; AidIniBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgRstBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgRstBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgAntBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgAntBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgTp5Builder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgTp5Builder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgTmode2Builder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgTmode2Builder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgTmode3Builder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgTmode3Builder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgPrtI2cBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgPrtI2cBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgPrtUartBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgPrtUartBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgPrtSpiBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgPrtSpiBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgRateBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgRateBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgMsgSinglePortBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgMsgSinglePortBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgMsgAllPortsBuilder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgMsgAllPortsBuilder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgNav5Builder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgNav5Builder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
impl crate::cmd::ToArr for CfgNavX5Builder {
    fn arr(self) -> Vec<u8> {
        let a: [u8; CfgNavX5Builder::PACKET_LEN] = self.into();
        a.to_vec()
    }
}
/// `$b` is the finished builder of command `$k`.
#[macro_export]
macro_rules! with_builder {
    ($k:expr, $get:expr, $b:ident => $e:expr, $none:expr) => {
        match $k {
            "NavResetOdo" => { let $b = ublox::NavResetOdoBuilder {}; $e },
            "CfgOdo" => { let $b = $crate::gen_cmd::new_CfgOdo($get); $e },
            "CfgItfm" => { let $b = $crate::gen_cmd::new_CfgItfm($get); $e },
            "CfgInf" => { let $b = $crate::gen_cmd::new_CfgInf($get); $e },
            "AidIni" => { let $b = $crate::gen_cmd::new_AidIni($get); $e },
            "CfgRst" => { let $b = $crate::gen_cmd::new_CfgRst($get); $e },
            "CfgAnt" => { let $b = $crate::gen_cmd::new_CfgAnt($get); $e },
            "CfgTp5" => { let $b = $crate::gen_cmd::new_CfgTp5($get); $e },
            "CfgTmode2" => { let $b = $crate::gen_cmd::new_CfgTmode2($get); $e },
            "CfgTmode3" => { let $b = $crate::gen_cmd::new_CfgTmode3($get); $e },
            "CfgPrtI2c" => { let $b = $crate::gen_cmd::new_CfgPrtI2c($get); $e },
            "CfgPrtUart" => { let $b = $crate::gen_cmd::new_CfgPrtUart($get); $e },
            "CfgPrtSpi" => { let $b = $crate::gen_cmd::new_CfgPrtSpi($get); $e },
            "CfgRate" => { let $b = $crate::gen_cmd::new_CfgRate($get); $e },
            "CfgMsgSinglePort" => { let $b = $crate::gen_cmd::new_CfgMsgSinglePort($get); $e },
            "CfgMsgAllPorts" => { let $b = $crate::gen_cmd::new_CfgMsgAllPorts($get); $e },
            "CfgNav5" => { let $b = $crate::gen_cmd::new_CfgNav5($get); $e },
            "CfgNavX5" => { let $b = $crate::gen_cmd::new_CfgNavX5($get); $e },
            _ => $none,
        }
    };
}
/// Read, copy, change: for every message that can be both read and set.
#[macro_export]
macro_rules! with_config {
    ($p:expr, $f:expr, $x:expr, $b:ident => $e:expr, $none:expr) => {
        match $p {
            ublox::PacketRef::CfgOdo(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgOdo(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgOdo(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgItfm(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgItfm(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgItfm(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgAnt(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgAnt(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgAnt(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgTp5(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgTp5(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgTp5(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgTmode2(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgTmode2(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgTmode2(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgTmode3(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgTmode3(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgTmode3(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgPrtI2c(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgPrtI2c(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgPrtI2c(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgPrtUart(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgPrtUart(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgPrtUart(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgPrtSpi(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgPrtSpi(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgPrtSpi(&mut $b, $f, x); } $e },
            ublox::PacketRef::CfgNav5(r) => { #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_CfgNav5(r); if let Some(x) = $x { $crate::gen_cmd::set_CfgNav5(&mut $b, $f, x); } $e },
            _ => $none,
        }
    };
}
/// `$t` is the type of the message called `$k`.
#[macro_export]
macro_rules! with_meta {
    ($k:expr, $t:ident => $e:expr, $none:expr) => {
        match $k {
            "NavPosLlh" => { type $t = ublox::NavPosLlh; $e },
            "NavVelNed" => { type $t = ublox::NavVelNed; $e },
            "NavHpPosLlh" => { type $t = ublox::NavHpPosLlh; $e },
            "NavHpPosEcef" => { type $t = ublox::NavHpPosEcef; $e },
            "NavPvt" => { type $t = ublox::NavPvt; $e },
            "NavStatus" => { type $t = ublox::NavStatus; $e },
            "NavDop" => { type $t = ublox::NavDop; $e },
            "NavEoe" => { type $t = ublox::NavEoe; $e },
            "NavSolution" => { type $t = ublox::NavSolution; $e },
            "NavSat" => { type $t = ublox::NavSat; $e },
            "NavOdo" => { type $t = ublox::NavOdo; $e },
            "NavResetOdo" => { type $t = ublox::NavResetOdo; $e },
            "CfgOdo" => { type $t = ublox::CfgOdo; $e },
            "CfgItfm" => { type $t = ublox::CfgItfm; $e },
            "CfgInf" => { type $t = ublox::CfgInf; $e },
            "InfError" => { type $t = ublox::InfError; $e },
            "InfNotice" => { type $t = ublox::InfNotice; $e },
            "InfTest" => { type $t = ublox::InfTest; $e },
            "InfWarning" => { type $t = ublox::InfWarning; $e },
            "InfDebug" => { type $t = ublox::InfDebug; $e },
            "AidIni" => { type $t = ublox::AidIni; $e },
            "AlpSrv" => { type $t = ublox::AlpSrv; $e },
            "AckAck" => { type $t = ublox::AckAck; $e },
            "AckNak" => { type $t = ublox::AckNak; $e },
            "CfgRst" => { type $t = ublox::CfgRst; $e },
            "CfgAnt" => { type $t = ublox::CfgAnt; $e },
            "CfgTp5" => { type $t = ublox::CfgTp5; $e },
            "CfgTmode2" => { type $t = ublox::CfgTmode2; $e },
            "TimSvin" => { type $t = ublox::TimSvin; $e },
            "NavTimeLs" => { type $t = ublox::NavTimeLs; $e },
            "CfgTmode3" => { type $t = ublox::CfgTmode3; $e },
            "CfgValSet" => { type $t = ublox::CfgValSet; $e },
            "CfgPrtI2c" => { type $t = ublox::CfgPrtI2c; $e },
            "CfgPrtUart" => { type $t = ublox::CfgPrtUart; $e },
            "CfgPrtSpi" => { type $t = ublox::CfgPrtSpi; $e },
            "NavTimeUTC" => { type $t = ublox::NavTimeUTC; $e },
            "CfgRate" => { type $t = ublox::CfgRate; $e },
            "CfgMsgSinglePort" => { type $t = ublox::CfgMsgSinglePort; $e },
            "CfgMsgAllPorts" => { type $t = ublox::CfgMsgAllPorts; $e },
            "CfgNav5" => { type $t = ublox::CfgNav5; $e },
            "CfgNavX5" => { type $t = ublox::CfgNavX5; $e },
            "MgaAck" => { type $t = ublox::MgaAck; $e },
            "MgaGloEph" => { type $t = ublox::MgaGloEph; $e },
            "MgaGpsIono" => { type $t = ublox::MgaGpsIono; $e },
            "MgaGpsEph" => { type $t = ublox::MgaGpsEph; $e },
            "TimTp" => { type $t = ublox::TimTp; $e },
            "TimTm2" => { type $t = ublox::TimTm2; $e },
            "RxmRawx" => { type $t = ublox::RxmRawx; $e },
            "MonHw" => { type $t = ublox::MonHw; $e },
            "MonGnss" => { type $t = ublox::MonGnss; $e },
            "MonVer" => { type $t = ublox::MonVer; $e },
            "RxmRtcm" => { type $t = ublox::RxmRtcm; $e },
            "EsfMeas" => { type $t = ublox::EsfMeas; $e },
            "EsfRaw" => { type $t = ublox::EsfRaw; $e },
            "EsfIns" => { type $t = ublox::EsfIns; $e },
            "HnrAtt" => { type $t = ublox::HnrAtt; $e },
            "HnrIns" => { type $t = ublox::HnrIns; $e },
            "HnrPvt" => { type $t = ublox::HnrPvt; $e },
            "NavAtt" => { type $t = ublox::NavAtt; $e },
            "NavClock" => { type $t = ublox::NavClock; $e },
            "RxmSfrbx" => { type $t = ublox::RxmSfrbx; $e },
            "NavVelECEF" => { type $t = ublox::NavVelECEF; $e },
            "MgaGpsEPH" => { type $t = ublox::MgaGpsEPH; $e },
            "SecUniqId" => { type $t = ublox::SecUniqId; $e },
            _ => $none,
        }
    };
}
pub const META: &[&str] = &["NavPosLlh", "NavVelNed", "NavHpPosLlh", "NavHpPosEcef", "NavPvt", "NavStatus", "NavDop", "NavEoe", "NavSolution", "NavSat", "NavOdo", "NavResetOdo", "CfgOdo", "CfgItfm", "CfgInf", "InfError", "InfNotice", "InfTest", "InfWarning", "InfDebug", "AidIni", "AlpSrv", "AckAck", "AckNak", "CfgRst", "CfgAnt", "CfgTp5", "CfgTmode2", "TimSvin", "NavTimeLs", "CfgTmode3", "CfgValSet", "CfgPrtI2c", "CfgPrtUart", "CfgPrtSpi", "NavTimeUTC", "CfgRate", "CfgMsgSinglePort", "CfgMsgAllPorts", "CfgNav5", "CfgNavX5", "MgaAck", "MgaGloEph", "MgaGpsIono", "MgaGpsEph", "TimTp", "TimTm2", "RxmRawx", "MonHw", "MonGnss", "MonVer", "RxmRtcm", "EsfMeas", "EsfRaw", "EsfIns", "HnrAtt", "HnrIns", "HnrPvt", "NavAtt", "NavClock", "RxmSfrbx", "NavVelECEF", "MgaGpsEPH", "SecUniqId"];
pub const COMMANDS: &[&str] = &["NavResetOdo", "CfgOdo", "CfgItfm", "CfgInf", "AidIni", "CfgRst", "CfgAnt", "CfgTp5", "CfgTmode2", "CfgTmode3", "CfgPrtI2c", "CfgPrtUart", "CfgPrtSpi", "CfgRate", "CfgMsgSinglePort", "CfgMsgAllPorts", "CfgNav5", "CfgNavX5"];
pub const CONFIGS: &[&str] = &["CfgOdo", "CfgItfm", "CfgAnt", "CfgTp5", "CfgTmode2", "CfgTmode3", "CfgPrtI2c", "CfgPrtUart", "CfgPrtSpi", "CfgNav5"];
/// Key and kind of value of every configuration item.
pub const KEYS: &[(u32, &str)] = &[
    (0x40520001, "u32"),
    (0x20520002, "StopBits"),
    (0x20520003, "DataBits"),
    (0x20520004, "Parity"),
    (0x10520005, "bool"),
    (0x10730001, "bool"),
    (0x10730002, "bool"),
    (0x10730004, "bool"),
    (0x10740001, "bool"),
    (0x10740002, "bool"),
    (0x10740004, "bool"),
    (0x40530001, "u32"),
    (0x20530002, "StopBits"),
    (0x20530003, "DataBits"),
    (0x20530004, "Parity"),
    (0x10530005, "bool"),
    (0x10530006, "bool"),
    (0x10750001, "bool"),
    (0x10750002, "bool"),
    (0x10750004, "bool"),
    (0x10760001, "bool"),
    (0x10760002, "bool"),
    (0x10760004, "bool"),
    (0x10650001, "bool"),
    (0x10650002, "bool"),
    (0x3065000a, "u16"),
    (0x3065000b, "u16"),
    (0x3065000c, "u16"),
    (0x5065000d, "u64"),
    (0x5065000e, "u64"),
    (0x5065000f, "u64"),
    (0x50650010, "u64"),
    (0x50650011, "u64"),
    (0x50650012, "u64"),
    (0x50650013, "u64"),
    (0x50650014, "u64"),
    (0x50650015, "u64"),
    (0x50650016, "u64"),
    (0x50650017, "u64"),
    (0x50650018, "u64"),
    (0x10770001, "bool"),
    (0x10770002, "bool"),
    (0x10770004, "bool"),
    (0x10780001, "bool"),
    (0x10780002, "bool"),
    (0x10780004, "bool"),
    (0x20920001, "CfgInfMask"),
    (0x20920002, "CfgInfMask"),
    (0x20920003, "CfgInfMask"),
    (0x20920004, "CfgInfMask"),
    (0x20920005, "CfgInfMask"),
    (0x20920006, "CfgInfMask"),
    (0x20920007, "CfgInfMask"),
    (0x20920008, "CfgInfMask"),
    (0x20920009, "CfgInfMask"),
    (0x2092000a, "CfgInfMask"),
    (0x30210001, "u16"),
    (0x30210002, "u16"),
    (0x20210003, "AlignmentToReferenceTime"),
    (0x209100a6, "u8"),
    (0x209100aa, "u8"),
    (0x209100a7, "u8"),
    (0x209100a8, "u8"),
    (0x209100a9, "u8"),
    (0x209100dd, "u8"),
    (0x209100e1, "u8"),
    (0x209100de, "u8"),
    (0x209100df, "u8"),
    (0x209100e0, "u8"),
    (0x209100ba, "u8"),
    (0x209100be, "u8"),
    (0x209100bb, "u8"),
    (0x209100bc, "u8"),
    (0x209100bd, "u8"),
    (0x209100c9, "u8"),
    (0x209100cd, "u8"),
    (0x209100ca, "u8"),
    (0x209100cb, "u8"),
    (0x209100cc, "u8"),
    (0x209100b5, "u8"),
    (0x209100b9, "u8"),
    (0x209100b6, "u8"),
    (0x209100b7, "u8"),
    (0x209100b8, "u8"),
    (0x209100ce, "u8"),
    (0x209100d2, "u8"),
    (0x209100cf, "u8"),
    (0x209100d0, "u8"),
    (0x209100d1, "u8"),
    (0x209100bf, "u8"),
    (0x209100c3, "u8"),
    (0x209100c0, "u8"),
    (0x209100c1, "u8"),
    (0x209100c2, "u8"),
    (0x209100d3, "u8"),
    (0x209100d7, "u8"),
    (0x209100d4, "u8"),
    (0x209100d5, "u8"),
    (0x209100d6, "u8"),
    (0x209100c4, "u8"),
    (0x209100c8, "u8"),
    (0x209100c5, "u8"),
    (0x209100c6, "u8"),
    (0x209100c7, "u8"),
    (0x209100ab, "u8"),
    (0x209100af, "u8"),
    (0x209100ac, "u8"),
    (0x209100ad, "u8"),
    (0x209100ae, "u8"),
    (0x209100e7, "u8"),
    (0x209100eb, "u8"),
    (0x209100e8, "u8"),
    (0x209100e9, "u8"),
    (0x209100ea, "u8"),
    (0x209100b0, "u8"),
    (0x209100b4, "u8"),
    (0x209100b1, "u8"),
    (0x209100b2, "u8"),
    (0x209100b3, "u8"),
    (0x209100d8, "u8"),
    (0x209100dc, "u8"),
    (0x209100d9, "u8"),
    (0x209100da, "u8"),
    (0x209100db, "u8"),
    (0x209100ec, "u8"),
    (0x209100f0, "u8"),
    (0x209100ed, "u8"),
    (0x209100ee, "u8"),
    (0x209100ef, "u8"),
    (0x209100f1, "u8"),
    (0x209100f5, "u8"),
    (0x209100f2, "u8"),
    (0x209100f3, "u8"),
    (0x209100f4, "u8"),
    (0x209100f6, "u8"),
    (0x209100fa, "u8"),
    (0x209100f7, "u8"),
    (0x209100f8, "u8"),
    (0x209100f9, "u8"),
    (0x209102bd, "u8"),
    (0x209102c1, "u8"),
    (0x209102be, "u8"),
    (0x209102bf, "u8"),
    (0x209102c0, "u8"),
    (0x2091035e, "u8"),
    (0x20910362, "u8"),
    (0x2091035f, "u8"),
    (0x20910360, "u8"),
    (0x20910361, "u8"),
    (0x209102cc, "u8"),
    (0x209102d0, "u8"),
    (0x209102cd, "u8"),
    (0x209102ce, "u8"),
    (0x209102cf, "u8"),
    (0x20910363, "u8"),
    (0x20910367, "u8"),
    (0x20910364, "u8"),
    (0x20910365, "u8"),
    (0x20910366, "u8"),
    (0x209102d1, "u8"),
    (0x209102d5, "u8"),
    (0x209102d2, "u8"),
    (0x209102d3, "u8"),
    (0x209102d4, "u8"),
    (0x20910368, "u8"),
    (0x2091036c, "u8"),
    (0x20910369, "u8"),
    (0x2091036a, "u8"),
    (0x2091036b, "u8"),
    (0x20910318, "u8"),
    (0x2091031c, "u8"),
    (0x20910319, "u8"),
    (0x2091031a, "u8"),
    (0x2091031b, "u8"),
    (0x2091036d, "u8"),
    (0x20910371, "u8"),
    (0x2091036e, "u8"),
    (0x2091036f, "u8"),
    (0x20910370, "u8"),
    (0x209102d6, "u8"),
    (0x209102da, "u8"),
    (0x209102d7, "u8"),
    (0x209102d8, "u8"),
    (0x209102d9, "u8"),
    (0x20910303, "u8"),
    (0x20910307, "u8"),
    (0x20910304, "u8"),
    (0x20910305, "u8"),
    (0x20910306, "u8"),
    (0x20910259, "u8"),
    (0x2091025d, "u8"),
    (0x2091025a, "u8"),
    (0x2091025b, "u8"),
    (0x2091025c, "u8"),
    (0x2091034f, "u8"),
    (0x20910353, "u8"),
    (0x20910350, "u8"),
    (0x20910351, "u8"),
    (0x20910352, "u8"),
    (0x209101b9, "u8"),
    (0x209101bd, "u8"),
    (0x209101ba, "u8"),
    (0x209101bb, "u8"),
    (0x209101bc, "u8"),
    (0x20910354, "u8"),
    (0x20910358, "u8"),
    (0x20910355, "u8"),
    (0x20910356, "u8"),
    (0x20910357, "u8"),
    (0x209101b4, "u8"),
    (0x209101b8, "u8"),
    (0x209101b5, "u8"),
    (0x209101b6, "u8"),
    (0x209101b7, "u8"),
    (0x209101a5, "u8"),
    (0x209101a9, "u8"),
    (0x209101a6, "u8"),
    (0x209101a7, "u8"),
    (0x209101a8, "u8"),
    (0x20910196, "u8"),
    (0x2091019a, "u8"),
    (0x20910197, "u8"),
    (0x20910198, "u8"),
    (0x20910199, "u8"),
    (0x20910359, "u8"),
    (0x2091035d, "u8"),
    (0x2091035a, "u8"),
    (0x2091035b, "u8"),
    (0x2091035c, "u8"),
    (0x209101a0, "u8"),
    (0x209101a4, "u8"),
    (0x209101a1, "u8"),
    (0x209101a2, "u8"),
    (0x209101a3, "u8"),
    (0x20910187, "u8"),
    (0x2091018b, "u8"),
    (0x20910188, "u8"),
    (0x20910189, "u8"),
    (0x2091018a, "u8"),
    (0x2091019b, "u8"),
    (0x2091019f, "u8"),
    (0x2091019c, "u8"),
    (0x2091019d, "u8"),
    (0x2091019e, "u8"),
    (0x20910065, "u8"),
    (0x20910069, "u8"),
    (0x20910066, "u8"),
    (0x20910067, "u8"),
    (0x20910068, "u8"),
    (0x20910038, "u8"),
    (0x2091003c, "u8"),
    (0x20910039, "u8"),
    (0x2091003a, "u8"),
    (0x2091003b, "u8"),
    (0x2091015f, "u8"),
    (0x20910163, "u8"),
    (0x20910160, "u8"),
    (0x20910161, "u8"),
    (0x20910162, "u8"),
    (0x209100a1, "u8"),
    (0x209100a5, "u8"),
    (0x209100a2, "u8"),
    (0x209100a3, "u8"),
    (0x209100a4, "u8"),
    (0x2091002e, "u8"),
    (0x20910032, "u8"),
    (0x2091002f, "u8"),
    (0x20910030, "u8"),
    (0x20910031, "u8"),
    (0x20910033, "u8"),
    (0x20910037, "u8"),
    (0x20910034, "u8"),
    (0x20910035, "u8"),
    (0x20910036, "u8"),
    (0x2091007e, "u8"),
    (0x20910082, "u8"),
    (0x2091007f, "u8"),
    (0x20910080, "u8"),
    (0x20910081, "u8"),
    (0x20910010, "u8"),
    (0x20910014, "u8"),
    (0x20910011, "u8"),
    (0x20910012, "u8"),
    (0x20910013, "u8"),
    (0x20910024, "u8"),
    (0x20910028, "u8"),
    (0x20910025, "u8"),
    (0x20910026, "u8"),
    (0x20910027, "u8"),
    (0x20910029, "u8"),
    (0x2091002d, "u8"),
    (0x2091002a, "u8"),
    (0x2091002b, "u8"),
    (0x2091002c, "u8"),
    (0x20910006, "u8"),
    (0x2091000a, "u8"),
    (0x20910007, "u8"),
    (0x20910008, "u8"),
    (0x20910009, "u8"),
    (0x2091008d, "u8"),
    (0x20910091, "u8"),
    (0x2091008e, "u8"),
    (0x2091008f, "u8"),
    (0x20910090, "u8"),
    (0x20910015, "u8"),
    (0x20910019, "u8"),
    (0x20910016, "u8"),
    (0x20910017, "u8"),
    (0x20910018, "u8"),
    (0x20910345, "u8"),
    (0x20910349, "u8"),
    (0x20910346, "u8"),
    (0x20910347, "u8"),
    (0x20910348, "u8"),
    (0x2091001a, "u8"),
    (0x2091001e, "u8"),
    (0x2091001b, "u8"),
    (0x2091001c, "u8"),
    (0x2091001d, "u8"),
    (0x20910088, "u8"),
    (0x2091008c, "u8"),
    (0x20910089, "u8"),
    (0x2091008a, "u8"),
    (0x2091008b, "u8"),
    (0x20910051, "u8"),
    (0x20910055, "u8"),
    (0x20910052, "u8"),
    (0x20910053, "u8"),
    (0x20910054, "u8"),
    (0x20910056, "u8"),
    (0x2091005a, "u8"),
    (0x20910057, "u8"),
    (0x20910058, "u8"),
    (0x20910059, "u8"),
    (0x2091004c, "u8"),
    (0x20910050, "u8"),
    (0x2091004d, "u8"),
    (0x2091004e, "u8"),
    (0x2091004f, "u8"),
    (0x20910047, "u8"),
    (0x2091004b, "u8"),
    (0x20910048, "u8"),
    (0x20910049, "u8"),
    (0x2091004a, "u8"),
    (0x20910060, "u8"),
    (0x20910064, "u8"),
    (0x20910061, "u8"),
    (0x20910062, "u8"),
    (0x20910063, "u8"),
    (0x2091005b, "u8"),
    (0x2091005f, "u8"),
    (0x2091005c, "u8"),
    (0x2091005d, "u8"),
    (0x2091005e, "u8"),
    (0x2091003d, "u8"),
    (0x20910041, "u8"),
    (0x2091003e, "u8"),
    (0x2091003f, "u8"),
    (0x20910040, "u8"),
    (0x20910042, "u8"),
    (0x20910046, "u8"),
    (0x20910043, "u8"),
    (0x20910044, "u8"),
    (0x20910045, "u8"),
    (0x20910204, "u8"),
    (0x20910208, "u8"),
    (0x20910205, "u8"),
    (0x20910206, "u8"),
    (0x20910207, "u8"),
    (0x209102a4, "u8"),
    (0x209102a8, "u8"),
    (0x209102a5, "u8"),
    (0x209102a6, "u8"),
    (0x209102a7, "u8"),
    (0x2091025e, "u8"),
    (0x20910262, "u8"),
    (0x2091025f, "u8"),
    (0x20910260, "u8"),
    (0x20910261, "u8"),
    (0x20910268, "u8"),
    (0x2091026c, "u8"),
    (0x20910269, "u8"),
    (0x2091026a, "u8"),
    (0x2091026b, "u8"),
    (0x20910231, "u8"),
    (0x20910235, "u8"),
    (0x20910232, "u8"),
    (0x20910233, "u8"),
    (0x20910234, "u8"),
    (0x20910178, "u8"),
    (0x2091017c, "u8"),
    (0x20910179, "u8"),
    (0x2091017a, "u8"),
    (0x2091017b, "u8"),
    (0x2091017d, "u8"),
    (0x20910181, "u8"),
    (0x2091017e, "u8"),
    (0x2091017f, "u8"),
    (0x20910180, "u8"),
    (0x20910092, "u8"),
    (0x20910096, "u8"),
    (0x20910093, "u8"),
    (0x20910094, "u8"),
    (0x20910095, "u8"),
    (0x1031001f, "bool"),
    (0x10310001, "bool"),
    (0x10310003, "bool"),
    (0x10310021, "bool"),
    (0x10310007, "bool"),
    (0x1031000a, "bool"),
    (0x10310022, "bool"),
    (0x1031000d, "bool"),
    (0x1031000e, "bool"),
    (0x10310024, "bool"),
    (0x10310012, "bool"),
    (0x10310015, "bool"),
    (0x10310025, "bool"),
    (0x10310018, "bool"),
    (0x1031001a, "bool"),
    (0x20050023, "TpPulse"),
    (0x20050030, "TpPulseLength"),
    (0x30050001, "i16"),
    (0x40050002, "u32"),
    (0x40050003, "u32"),
    (0x40050024, "u32"),
    (0x40050025, "u32"),
    (0x40050004, "u32"),
    (0x40050005, "u32"),
    (0x10050007, "bool"),
    (0x10050008, "bool"),
    (0x10050009, "bool"),
    (0x1005000a, "bool"),
    (0x1005000b, "bool"),
    (0x2005000c, "AlignmentToReferenceTime"),
];
pub fn cv_make(key: u32, raw: u64) -> Option<CfgVal> {
    Some(match key {
        0x40520001 => CfgVal::Uart1Baudrate(raw as u32),
        0x20520002 => CfgVal::Uart1StopBits(match raw & 3 { 0 => StopBits::Half, 1 => StopBits::One, 2 => StopBits::OneHalf, _ => StopBits::Two }),
        0x20520003 => CfgVal::Uart1DataBits(if raw & 1 == 0 { DataBits::Eight } else { DataBits::Seven }),
        0x20520004 => CfgVal::Uart1Parity(match raw % 3 { 0 => Parity::None, 1 => Parity::Odd, _ => Parity::Even }),
        0x10520005 => CfgVal::Uart1Enabled(raw & 1 == 1),
        0x10730001 => CfgVal::Uart1InProtUbx(raw & 1 == 1),
        0x10730002 => CfgVal::Uart1InProtNmea(raw & 1 == 1),
        0x10730004 => CfgVal::Uart1InProtRtcm3x(raw & 1 == 1),
        0x10740001 => CfgVal::Uart1OutProtUbx(raw & 1 == 1),
        0x10740002 => CfgVal::Uart1OutProtNmea(raw & 1 == 1),
        0x10740004 => CfgVal::Uart1OutProtRtcm3x(raw & 1 == 1),
        0x40530001 => CfgVal::Uart2Baudrate(raw as u32),
        0x20530002 => CfgVal::Uart2StopBits(match raw & 3 { 0 => StopBits::Half, 1 => StopBits::One, 2 => StopBits::OneHalf, _ => StopBits::Two }),
        0x20530003 => CfgVal::Uart2DataBits(if raw & 1 == 0 { DataBits::Eight } else { DataBits::Seven }),
        0x20530004 => CfgVal::Uart2Parity(match raw % 3 { 0 => Parity::None, 1 => Parity::Odd, _ => Parity::Even }),
        0x10530005 => CfgVal::Uart2Enabled(raw & 1 == 1),
        0x10530006 => CfgVal::Uart2Remap(raw & 1 == 1),
        0x10750001 => CfgVal::Uart2InProtUbx(raw & 1 == 1),
        0x10750002 => CfgVal::Uart2InProtNmea(raw & 1 == 1),
        0x10750004 => CfgVal::Uart2InProtRtcm3x(raw & 1 == 1),
        0x10760001 => CfgVal::Uart2OutProtUbx(raw & 1 == 1),
        0x10760002 => CfgVal::Uart2OutProtNmea(raw & 1 == 1),
        0x10760004 => CfgVal::Uart2OutProtRtcm3x(raw & 1 == 1),
        0x10650001 => CfgVal::UsbEnabled(raw & 1 == 1),
        0x10650002 => CfgVal::UsbSelfpow(raw & 1 == 1),
        0x3065000a => CfgVal::UsbVendorId(raw as u16),
        0x3065000b => CfgVal::UsbProductId(raw as u16),
        0x3065000c => CfgVal::UsbPower(raw as u16),
        0x5065000d => CfgVal::UsbVendorStr0(raw),
        0x5065000e => CfgVal::UsbVendorStr1(raw),
        0x5065000f => CfgVal::UsbVendorStr2(raw),
        0x50650010 => CfgVal::UsbVendorStr3(raw),
        0x50650011 => CfgVal::UsbProductStr0(raw),
        0x50650012 => CfgVal::UsbProductStr1(raw),
        0x50650013 => CfgVal::UsbProductStr2(raw),
        0x50650014 => CfgVal::UsbProductStr3(raw),
        0x50650015 => CfgVal::UsbSerialNoStr0(raw),
        0x50650016 => CfgVal::UsbSerialNoStr1(raw),
        0x50650017 => CfgVal::UsbSerialNoStr2(raw),
        0x50650018 => CfgVal::UsbSerialNoStr3(raw),
        0x10770001 => CfgVal::UsbinprotUbx(raw & 1 == 1),
        0x10770002 => CfgVal::UsbinprotNmea(raw & 1 == 1),
        0x10770004 => CfgVal::UsbinprotRtcm3X(raw & 1 == 1),
        0x10780001 => CfgVal::UsbOutProtUbx(raw & 1 == 1),
        0x10780002 => CfgVal::UsbOutProtNmea(raw & 1 == 1),
        0x10780004 => CfgVal::UsbOutProtRtcm3x(raw & 1 == 1),
        0x20920001 => CfgVal::InfmsgUbxI2c(fl_CfgInfMask(raw as u8)),
        0x20920002 => CfgVal::InfmsgUbxUart1(fl_CfgInfMask(raw as u8)),
        0x20920003 => CfgVal::InfmsgUbxUart2(fl_CfgInfMask(raw as u8)),
        0x20920004 => CfgVal::InfmsgUbxUsb(fl_CfgInfMask(raw as u8)),
        0x20920005 => CfgVal::InfmsgUbxSpi(fl_CfgInfMask(raw as u8)),
        0x20920006 => CfgVal::InfmsgNmeaI2c(fl_CfgInfMask(raw as u8)),
        0x20920007 => CfgVal::InfmsgNmeaUart1(fl_CfgInfMask(raw as u8)),
        0x20920008 => CfgVal::InfmsgNmeaUart2(fl_CfgInfMask(raw as u8)),
        0x20920009 => CfgVal::InfmsgNmeaUsb(fl_CfgInfMask(raw as u8)),
        0x2092000a => CfgVal::InfmsgNmeaSpi(fl_CfgInfMask(raw as u8)),
        0x30210001 => CfgVal::RateMeas(raw as u16),
        0x30210002 => CfgVal::RateNav(raw as u16),
        0x20210003 => CfgVal::RateTimeref(en_AlignmentToReferenceTime((raw % 5) as i64)),
        0x209100a6 => CfgVal::MsgoutNmeaIdDtmI2c(raw as u8),
        0x209100aa => CfgVal::MsgoutNmeaIdDtmSpi(raw as u8),
        0x209100a7 => CfgVal::MsgoutNmeaIdDtmUart1(raw as u8),
        0x209100a8 => CfgVal::MsgoutNmeaIdDtmUart2(raw as u8),
        0x209100a9 => CfgVal::MsgoutNmeaIdDtmUsb(raw as u8),
        0x209100dd => CfgVal::MsgoutNmeaIdGbsI2c(raw as u8),
        0x209100e1 => CfgVal::MsgoutNmeaIdGbsSpi(raw as u8),
        0x209100de => CfgVal::MsgoutNmeaIdGbsUart1(raw as u8),
        0x209100df => CfgVal::MsgoutNmeaIdGbsUart2(raw as u8),
        0x209100e0 => CfgVal::MsgoutNmeaIdGbsUsb(raw as u8),
        0x209100ba => CfgVal::MsgoutNmeaIdGgaI2c(raw as u8),
        0x209100be => CfgVal::MsgoutNmeaIdGgaSpi(raw as u8),
        0x209100bb => CfgVal::MsgoutNmeaIdGgaUart1(raw as u8),
        0x209100bc => CfgVal::MsgoutNmeaIdGgaUart2(raw as u8),
        0x209100bd => CfgVal::MsgoutNmeaIdGgaUsb(raw as u8),
        0x209100c9 => CfgVal::MsgoutNmeaIdGllI2c(raw as u8),
        0x209100cd => CfgVal::MsgoutNmeaIdGllSpi(raw as u8),
        0x209100ca => CfgVal::MsgoutNmeaIdGllUart1(raw as u8),
        0x209100cb => CfgVal::MsgoutNmeaIdGllUart2(raw as u8),
        0x209100cc => CfgVal::MsgoutNmeaIdGllUsb(raw as u8),
        0x209100b5 => CfgVal::MsgoutNmeaIdGnsI2c(raw as u8),
        0x209100b9 => CfgVal::MsgoutNmeaIdGnsSpi(raw as u8),
        0x209100b6 => CfgVal::MsgoutNmeaIdGnsUart1(raw as u8),
        0x209100b7 => CfgVal::MsgoutNmeaIdGnsUart2(raw as u8),
        0x209100b8 => CfgVal::MsgoutNmeaIdGnsUsb(raw as u8),
        0x209100ce => CfgVal::MsgoutNmeaIdGrsI2c(raw as u8),
        0x209100d2 => CfgVal::MsgoutNmeaIdGrsSpi(raw as u8),
        0x209100cf => CfgVal::MsgoutNmeaIdGrsUart1(raw as u8),
        0x209100d0 => CfgVal::MsgoutNmeaIdGrsUart2(raw as u8),
        0x209100d1 => CfgVal::MsgoutNmeaIdGrsUsb(raw as u8),
        0x209100bf => CfgVal::MsgoutNmeaIdGsaI2c(raw as u8),
        0x209100c3 => CfgVal::MsgoutNmeaIdGsaSpi(raw as u8),
        0x209100c0 => CfgVal::MsgoutNmeaIdGsaUart1(raw as u8),
        0x209100c1 => CfgVal::MsgoutNmeaIdGsaUart2(raw as u8),
        0x209100c2 => CfgVal::MsgoutNmeaIdGsaUsb(raw as u8),
        0x209100d3 => CfgVal::MsgoutNmeaIdGstI2c(raw as u8),
        0x209100d7 => CfgVal::MsgoutNmeaIdGstSpi(raw as u8),
        0x209100d4 => CfgVal::MsgoutNmeaIdGstUart1(raw as u8),
        0x209100d5 => CfgVal::MsgoutNmeaIdGstUart2(raw as u8),
        0x209100d6 => CfgVal::MsgoutNmeaIdGstUsb(raw as u8),
        0x209100c4 => CfgVal::MsgoutNmeaIdGsvI2c(raw as u8),
        0x209100c8 => CfgVal::MsgoutNmeaIdGsvSpi(raw as u8),
        0x209100c5 => CfgVal::MsgoutNmeaIdGsvUart1(raw as u8),
        0x209100c6 => CfgVal::MsgoutNmeaIdGsvUart2(raw as u8),
        0x209100c7 => CfgVal::MsgoutNmeaIdGsvUsb(raw as u8),
        0x209100ab => CfgVal::MsgoutNmeaIdRmcI2c(raw as u8),
        0x209100af => CfgVal::MsgoutNmeaIdRmcSpi(raw as u8),
        0x209100ac => CfgVal::MsgoutNmeaIdRmcUart1(raw as u8),
        0x209100ad => CfgVal::MsgoutNmeaIdRmcUart2(raw as u8),
        0x209100ae => CfgVal::MsgoutNmeaIdRmcUsb(raw as u8),
        0x209100e7 => CfgVal::MsgoutNmeaIdVlwI2c(raw as u8),
        0x209100eb => CfgVal::MsgoutNmeaIdVlwSpi(raw as u8),
        0x209100e8 => CfgVal::MsgoutNmeaIdVlwUart1(raw as u8),
        0x209100e9 => CfgVal::MsgoutNmeaIdVlwUart2(raw as u8),
        0x209100ea => CfgVal::MsgoutNmeaIdVlwUsb(raw as u8),
        0x209100b0 => CfgVal::MsgoutNmeaIdVtgI2c(raw as u8),
        0x209100b4 => CfgVal::MsgoutNmeaIdVtgSpi(raw as u8),
        0x209100b1 => CfgVal::MsgoutNmeaIdVtgUart1(raw as u8),
        0x209100b2 => CfgVal::MsgoutNmeaIdVtgUart2(raw as u8),
        0x209100b3 => CfgVal::MsgoutNmeaIdVtgUsb(raw as u8),
        0x209100d8 => CfgVal::MsgoutNmeaIdZdaI2c(raw as u8),
        0x209100dc => CfgVal::MsgoutNmeaIdZdaSpi(raw as u8),
        0x209100d9 => CfgVal::MsgoutNmeaIdZdaUart1(raw as u8),
        0x209100da => CfgVal::MsgoutNmeaIdZdaUart2(raw as u8),
        0x209100db => CfgVal::MsgoutNmeaIdZdaUsb(raw as u8),
        0x209100ec => CfgVal::MsgoutPubxIdPolypI2c(raw as u8),
        0x209100f0 => CfgVal::MsgoutPubxIdPolypSpi(raw as u8),
        0x209100ed => CfgVal::MsgoutPubxIdPolypUart1(raw as u8),
        0x209100ee => CfgVal::MsgoutPubxIdPolypUart2(raw as u8),
        0x209100ef => CfgVal::MsgoutPubxIdPolypUsb(raw as u8),
        0x209100f1 => CfgVal::MsgoutPubxIdPolysI2c(raw as u8),
        0x209100f5 => CfgVal::MsgoutPubxIdPolysSpi(raw as u8),
        0x209100f2 => CfgVal::MsgoutPubxIdPolysUart1(raw as u8),
        0x209100f3 => CfgVal::MsgoutPubxIdPolysUart2(raw as u8),
        0x209100f4 => CfgVal::MsgoutPubxIdPolysUsb(raw as u8),
        0x209100f6 => CfgVal::MsgoutPubxIdPolytI2c(raw as u8),
        0x209100fa => CfgVal::MsgoutPubxIdPolytSpi(raw as u8),
        0x209100f7 => CfgVal::MsgoutPubxIdPolytUart1(raw as u8),
        0x209100f8 => CfgVal::MsgoutPubxIdPolytUart2(raw as u8),
        0x209100f9 => CfgVal::MsgoutPubxIdPolytUsb(raw as u8),
        0x209102bd => CfgVal::MsgoutRtcm3xType1005I2c(raw as u8),
        0x209102c1 => CfgVal::MsgoutRtcm3xType1005Spi(raw as u8),
        0x209102be => CfgVal::MsgoutRtcm3xType1005Uart1(raw as u8),
        0x209102bf => CfgVal::MsgoutRtcm3xType1005Uart2(raw as u8),
        0x209102c0 => CfgVal::MsgoutRtcm3xType1005Usb(raw as u8),
        0x2091035e => CfgVal::MsgoutRtcm3xType1074I2c(raw as u8),
        0x20910362 => CfgVal::MsgoutRtcm3xType1074Spi(raw as u8),
        0x2091035f => CfgVal::MsgoutRtcm3xType1074Uart1(raw as u8),
        0x20910360 => CfgVal::MsgoutRtcm3xType1074Uart2(raw as u8),
        0x20910361 => CfgVal::MsgoutRtcm3xType1074Usb(raw as u8),
        0x209102cc => CfgVal::MsgoutRtcm3xType1077I2c(raw as u8),
        0x209102d0 => CfgVal::MsgoutRtcm3xType1077Spi(raw as u8),
        0x209102cd => CfgVal::MsgoutRtcm3xType1077Uart1(raw as u8),
        0x209102ce => CfgVal::MsgoutRtcm3xType1077Uart2(raw as u8),
        0x209102cf => CfgVal::MsgoutRtcm3xType1077Usb(raw as u8),
        0x20910363 => CfgVal::MsgoutRtcm3xType1084I2c(raw as u8),
        0x20910367 => CfgVal::MsgoutRtcm3xType1084Spi(raw as u8),
        0x20910364 => CfgVal::MsgoutRtcm3xType1084Uart1(raw as u8),
        0x20910365 => CfgVal::MsgoutRtcm3xType1084Uart2(raw as u8),
        0x20910366 => CfgVal::MsgoutRtcm3xType1084Usb(raw as u8),
        0x209102d1 => CfgVal::MsgoutRtcm3xType1087I2c(raw as u8),
        0x209102d5 => CfgVal::MsgoutRtcm3xType1087Spi(raw as u8),
        0x209102d2 => CfgVal::MsgoutRtcm3xType1087Uart1(raw as u8),
        0x209102d3 => CfgVal::MsgoutRtcm3xType1087Uart2(raw as u8),
        0x209102d4 => CfgVal::MsgoutRtcm3xType1087Usb(raw as u8),
        0x20910368 => CfgVal::MsgoutRtcm3xType1094I2c(raw as u8),
        0x2091036c => CfgVal::MsgoutRtcm3xType1094Spi(raw as u8),
        0x20910369 => CfgVal::MsgoutRtcm3xType1094Uart1(raw as u8),
        0x2091036a => CfgVal::MsgoutRtcm3xType1094Uart2(raw as u8),
        0x2091036b => CfgVal::MsgoutRtcm3xType1094Usb(raw as u8),
        0x20910318 => CfgVal::MsgoutRtcm3xType1097I2c(raw as u8),
        0x2091031c => CfgVal::MsgoutRtcm3xType1097Spi(raw as u8),
        0x20910319 => CfgVal::MsgoutRtcm3xType1097Uart1(raw as u8),
        0x2091031a => CfgVal::MsgoutRtcm3xType1097Uart2(raw as u8),
        0x2091031b => CfgVal::MsgoutRtcm3xType1097Usb(raw as u8),
        0x2091036d => CfgVal::MsgoutRtcm3xType1124I2c(raw as u8),
        0x20910371 => CfgVal::MsgoutRtcm3xType1124Spi(raw as u8),
        0x2091036e => CfgVal::MsgoutRtcm3xType1124Uart1(raw as u8),
        0x2091036f => CfgVal::MsgoutRtcm3xType1124Uart2(raw as u8),
        0x20910370 => CfgVal::MsgoutRtcm3xType1124Usb(raw as u8),
        0x209102d6 => CfgVal::MsgoutRtcm3xType1127I2c(raw as u8),
        0x209102da => CfgVal::MsgoutRtcm3xType1127Spi(raw as u8),
        0x209102d7 => CfgVal::MsgoutRtcm3xType1127Uart1(raw as u8),
        0x209102d8 => CfgVal::MsgoutRtcm3xType1127Uart2(raw as u8),
        0x209102d9 => CfgVal::MsgoutRtcm3xType1127Usb(raw as u8),
        0x20910303 => CfgVal::MsgoutRtcm3xType1230I2c(raw as u8),
        0x20910307 => CfgVal::MsgoutRtcm3xType1230Spi(raw as u8),
        0x20910304 => CfgVal::MsgoutRtcm3xType1230Uart1(raw as u8),
        0x20910305 => CfgVal::MsgoutRtcm3xType1230Uart2(raw as u8),
        0x20910306 => CfgVal::MsgoutRtcm3xType1230Usb(raw as u8),
        0x20910259 => CfgVal::MsgoutUbxLogInfoI2c(raw as u8),
        0x2091025d => CfgVal::MsgoutUbxLogInfoSpi(raw as u8),
        0x2091025a => CfgVal::MsgoutUbxLogInfoUart1(raw as u8),
        0x2091025b => CfgVal::MsgoutUbxLogInfoUart2(raw as u8),
        0x2091025c => CfgVal::MsgoutUbxLogInfoUsb(raw as u8),
        0x2091034f => CfgVal::MsgoutUbxMonCommsI2c(raw as u8),
        0x20910353 => CfgVal::MsgoutUbxMonCommsSpi(raw as u8),
        0x20910350 => CfgVal::MsgoutUbxMonCommsUart1(raw as u8),
        0x20910351 => CfgVal::MsgoutUbxMonCommsUart2(raw as u8),
        0x20910352 => CfgVal::MsgoutUbxMonCommsUsb(raw as u8),
        0x209101b9 => CfgVal::MsgoutUbxMonHw2I2c(raw as u8),
        0x209101bd => CfgVal::MsgoutUbxMonHw2Spi(raw as u8),
        0x209101ba => CfgVal::MsgoutUbxMonHw2Uart1(raw as u8),
        0x209101bb => CfgVal::MsgoutUbxMonHw2Uart2(raw as u8),
        0x209101bc => CfgVal::MsgoutUbxMonHw2Usb(raw as u8),
        0x20910354 => CfgVal::MsgoutUbxMonHw3I2c(raw as u8),
        0x20910358 => CfgVal::MsgoutUbxMonHw3Spi(raw as u8),
        0x20910355 => CfgVal::MsgoutUbxMonHw3Uart1(raw as u8),
        0x20910356 => CfgVal::MsgoutUbxMonHw3Uart2(raw as u8),
        0x20910357 => CfgVal::MsgoutUbxMonHw3Usb(raw as u8),
        0x209101b4 => CfgVal::MsgoutUbxMonHwI2c(raw as u8),
        0x209101b8 => CfgVal::MsgoutUbxMonHwSpi(raw as u8),
        0x209101b5 => CfgVal::MsgoutUbxMonHwUart1(raw as u8),
        0x209101b6 => CfgVal::MsgoutUbxMonHwUart2(raw as u8),
        0x209101b7 => CfgVal::MsgoutUbxMonHwUsb(raw as u8),
        0x209101a5 => CfgVal::MsgoutUbxMonIoI2c(raw as u8),
        0x209101a9 => CfgVal::MsgoutUbxMonIoSpi(raw as u8),
        0x209101a6 => CfgVal::MsgoutUbxMonIoUart1(raw as u8),
        0x209101a7 => CfgVal::MsgoutUbxMonIoUart2(raw as u8),
        0x209101a8 => CfgVal::MsgoutUbxMonIoUsb(raw as u8),
        0x20910196 => CfgVal::MsgoutUbxMonMsgPpI2c(raw as u8),
        0x2091019a => CfgVal::MsgoutUbxMonMsgPpSpi(raw as u8),
        0x20910197 => CfgVal::MsgoutUbxMonMsgPpUart1(raw as u8),
        0x20910198 => CfgVal::MsgoutUbxMonMsgPpUart2(raw as u8),
        0x20910199 => CfgVal::MsgoutUbxMonMsgPpUsb(raw as u8),
        0x20910359 => CfgVal::MsgoutUbxMonRfI2c(raw as u8),
        0x2091035d => CfgVal::MsgoutUbxMonRfSpi(raw as u8),
        0x2091035a => CfgVal::MsgoutUbxMonRfUart1(raw as u8),
        0x2091035b => CfgVal::MsgoutUbxMonRfUart2(raw as u8),
        0x2091035c => CfgVal::MsgoutUbxMonRfUsb(raw as u8),
        0x209101a0 => CfgVal::MsgoutUbxMonRxbufI2c(raw as u8),
        0x209101a4 => CfgVal::MsgoutUbxMonRxbufSpi(raw as u8),
        0x209101a1 => CfgVal::MsgoutUbxMonRxbufUart1(raw as u8),
        0x209101a2 => CfgVal::MsgoutUbxMonRxbufUart2(raw as u8),
        0x209101a3 => CfgVal::MsgoutUbxMonRxbufUsb(raw as u8),
        0x20910187 => CfgVal::MsgoutUbxMonRxrI2c(raw as u8),
        0x2091018b => CfgVal::MsgoutUbxMonRxrSpi(raw as u8),
        0x20910188 => CfgVal::MsgoutUbxMonRxrUart1(raw as u8),
        0x20910189 => CfgVal::MsgoutUbxMonRxrUart2(raw as u8),
        0x2091018a => CfgVal::MsgoutUbxMonRxrUsb(raw as u8),
        0x2091019b => CfgVal::MsgoutUbxMonTxbufI2c(raw as u8),
        0x2091019f => CfgVal::MsgoutUbxMonTxbufSpi(raw as u8),
        0x2091019c => CfgVal::MsgoutUbxMonTxbufUart1(raw as u8),
        0x2091019d => CfgVal::MsgoutUbxMonTxbufUart2(raw as u8),
        0x2091019e => CfgVal::MsgoutUbxMonTxbufUsb(raw as u8),
        0x20910065 => CfgVal::MsgoutUbxNavClockI2c(raw as u8),
        0x20910069 => CfgVal::MsgoutUbxNavClockSpi(raw as u8),
        0x20910066 => CfgVal::MsgoutUbxNavClockUart1(raw as u8),
        0x20910067 => CfgVal::MsgoutUbxNavClockUart2(raw as u8),
        0x20910068 => CfgVal::MsgoutUbxNavClockUsb(raw as u8),
        0x20910038 => CfgVal::MsgoutUbxNavDopI2c(raw as u8),
        0x2091003c => CfgVal::MsgoutUbxNavDopSpi(raw as u8),
        0x20910039 => CfgVal::MsgoutUbxNavDopUart1(raw as u8),
        0x2091003a => CfgVal::MsgoutUbxNavDopUart2(raw as u8),
        0x2091003b => CfgVal::MsgoutUbxNavDopUsb(raw as u8),
        0x2091015f => CfgVal::MsgoutUbxNavEoeI2c(raw as u8),
        0x20910163 => CfgVal::MsgoutUbxNavEoeSpi(raw as u8),
        0x20910160 => CfgVal::MsgoutUbxNavEoeUart1(raw as u8),
        0x20910161 => CfgVal::MsgoutUbxNavEoeUart2(raw as u8),
        0x20910162 => CfgVal::MsgoutUbxNavEoeUsb(raw as u8),
        0x209100a1 => CfgVal::MsgoutUbxNavGeofenceI2c(raw as u8),
        0x209100a5 => CfgVal::MsgoutUbxNavGeofenceSpi(raw as u8),
        0x209100a2 => CfgVal::MsgoutUbxNavGeofenceUart1(raw as u8),
        0x209100a3 => CfgVal::MsgoutUbxNavGeofenceUart2(raw as u8),
        0x209100a4 => CfgVal::MsgoutUbxNavGeofenceUsb(raw as u8),
        0x2091002e => CfgVal::MsgoutUbxNavHpPosEcefI2c(raw as u8),
        0x20910032 => CfgVal::MsgoutUbxNavHpPosEcefSpi(raw as u8),
        0x2091002f => CfgVal::MsgoutUbxNavHpPosEcefUart1(raw as u8),
        0x20910030 => CfgVal::MsgoutUbxNavHpPosEcefUart2(raw as u8),
        0x20910031 => CfgVal::MsgoutUbxNavHpPosEcefUsb(raw as u8),
        0x20910033 => CfgVal::MsgoutUbxNavHpPosllhI2c(raw as u8),
        0x20910037 => CfgVal::MsgoutUbxNavHpPosllhSpi(raw as u8),
        0x20910034 => CfgVal::MsgoutUbxNavHpPosllhUart1(raw as u8),
        0x20910035 => CfgVal::MsgoutUbxNavHpPosllhUart2(raw as u8),
        0x20910036 => CfgVal::MsgoutUbxNavHpPosllhUsb(raw as u8),
        0x2091007e => CfgVal::MsgoutUbxNavOdoI2c(raw as u8),
        0x20910082 => CfgVal::MsgoutUbxNavOdoSpi(raw as u8),
        0x2091007f => CfgVal::MsgoutUbxNavOdoUart1(raw as u8),
        0x20910080 => CfgVal::MsgoutUbxNavOdoUart2(raw as u8),
        0x20910081 => CfgVal::MsgoutUbxNavOdoUsb(raw as u8),
        0x20910010 => CfgVal::MsgoutUbxNavOrbI2c(raw as u8),
        0x20910014 => CfgVal::MsgoutUbxNavOrbSpi(raw as u8),
        0x20910011 => CfgVal::MsgoutUbxNavOrbUart1(raw as u8),
        0x20910012 => CfgVal::MsgoutUbxNavOrbUart2(raw as u8),
        0x20910013 => CfgVal::MsgoutUbxNavOrbUsb(raw as u8),
        0x20910024 => CfgVal::MsgoutUbxNavPosEcefI2c(raw as u8),
        0x20910028 => CfgVal::MsgoutUbxNavPosEcefSpi(raw as u8),
        0x20910025 => CfgVal::MsgoutUbxNavPosEcefUart1(raw as u8),
        0x20910026 => CfgVal::MsgoutUbxNavPosEcefUart2(raw as u8),
        0x20910027 => CfgVal::MsgoutUbxNavPosEcefUsb(raw as u8),
        0x20910029 => CfgVal::MsgoutUbxNavPosLlhI2c(raw as u8),
        0x2091002d => CfgVal::MsgoutUbxNavPosLlhSpi(raw as u8),
        0x2091002a => CfgVal::MsgoutUbxNavPosLlhUart1(raw as u8),
        0x2091002b => CfgVal::MsgoutUbxNavPosLlhUart2(raw as u8),
        0x2091002c => CfgVal::MsgoutUbxNavPosLlhUsb(raw as u8),
        0x20910006 => CfgVal::MsgoutUbxNavPvtI2c(raw as u8),
        0x2091000a => CfgVal::MsgoutUbxNavPvtSpi(raw as u8),
        0x20910007 => CfgVal::MsgoutUbxNavPvtUart1(raw as u8),
        0x20910008 => CfgVal::MsgoutUbxNavPvtUart2(raw as u8),
        0x20910009 => CfgVal::MsgoutUbxNavPvtUsb(raw as u8),
        0x2091008d => CfgVal::MsgoutUbxNavRelposnedI2c(raw as u8),
        0x20910091 => CfgVal::MsgoutUbxNavRelposnedSpi(raw as u8),
        0x2091008e => CfgVal::MsgoutUbxNavRelposnedUart1(raw as u8),
        0x2091008f => CfgVal::MsgoutUbxNavRelposnedUart2(raw as u8),
        0x20910090 => CfgVal::MsgoutUbxNavRelposnedUsb(raw as u8),
        0x20910015 => CfgVal::MsgoutUbxNavSatI2c(raw as u8),
        0x20910019 => CfgVal::MsgoutUbxNavSatSpi(raw as u8),
        0x20910016 => CfgVal::MsgoutUbxNavSatUart1(raw as u8),
        0x20910017 => CfgVal::MsgoutUbxNavSatUart2(raw as u8),
        0x20910018 => CfgVal::MsgoutUbxNavSatUsb(raw as u8),
        0x20910345 => CfgVal::MsgoutUbxNavSigI2c(raw as u8),
        0x20910349 => CfgVal::MsgoutUbxNavSigSpi(raw as u8),
        0x20910346 => CfgVal::MsgoutUbxNavSigUart1(raw as u8),
        0x20910347 => CfgVal::MsgoutUbxNavSigUart2(raw as u8),
        0x20910348 => CfgVal::MsgoutUbxNavSigUsb(raw as u8),
        0x2091001a => CfgVal::MsgoutUbxNavStatusI2c(raw as u8),
        0x2091001e => CfgVal::MsgoutUbxNavStatusSpi(raw as u8),
        0x2091001b => CfgVal::MsgoutUbxNavStatusUart1(raw as u8),
        0x2091001c => CfgVal::MsgoutUbxNavStatusUart2(raw as u8),
        0x2091001d => CfgVal::MsgoutUbxNavStatusUsb(raw as u8),
        0x20910088 => CfgVal::MsgoutUbxNavSvinI2c(raw as u8),
        0x2091008c => CfgVal::MsgoutUbxNavSvinSpi(raw as u8),
        0x20910089 => CfgVal::MsgoutUbxNavSvinUart1(raw as u8),
        0x2091008a => CfgVal::MsgoutUbxNavSvinUart2(raw as u8),
        0x2091008b => CfgVal::MsgoutUbxNavSvinUsb(raw as u8),
        0x20910051 => CfgVal::MsgoutUbxNavTimeBdsI2c(raw as u8),
        0x20910055 => CfgVal::MsgoutUbxNavTimeBdsSpi(raw as u8),
        0x20910052 => CfgVal::MsgoutUbxNavTimeBdsUart1(raw as u8),
        0x20910053 => CfgVal::MsgoutUbxNavTimeBdsUart2(raw as u8),
        0x20910054 => CfgVal::MsgoutUbxNavTimeBdsUsb(raw as u8),
        0x20910056 => CfgVal::MsgoutUbxNavTimeGalI2c(raw as u8),
        0x2091005a => CfgVal::MsgoutUbxNavTimeGalSpi(raw as u8),
        0x20910057 => CfgVal::MsgoutUbxNavTimeGalUart1(raw as u8),
        0x20910058 => CfgVal::MsgoutUbxNavTimeGalUart2(raw as u8),
        0x20910059 => CfgVal::MsgoutUbxNavTimeGalUsb(raw as u8),
        0x2091004c => CfgVal::MsgoutUbxNavTimeGloI2c(raw as u8),
        0x20910050 => CfgVal::MsgoutUbxNavTimeGloSpi(raw as u8),
        0x2091004d => CfgVal::MsgoutUbxNavTimeGloUart1(raw as u8),
        0x2091004e => CfgVal::MsgoutUbxNavTimeGloUart2(raw as u8),
        0x2091004f => CfgVal::MsgoutUbxNavTimeGloUsb(raw as u8),
        0x20910047 => CfgVal::MsgoutUbxNavTimeGpsI2c(raw as u8),
        0x2091004b => CfgVal::MsgoutUbxNavTimeGpsSpi(raw as u8),
        0x20910048 => CfgVal::MsgoutUbxNavTimeGpsUart1(raw as u8),
        0x20910049 => CfgVal::MsgoutUbxNavTimeGpsUart2(raw as u8),
        0x2091004a => CfgVal::MsgoutUbxNavTimeGpsUsb(raw as u8),
        0x20910060 => CfgVal::MsgoutUbxNavTimeLsI2c(raw as u8),
        0x20910064 => CfgVal::MsgoutUbxNavTimeLsSpi(raw as u8),
        0x20910061 => CfgVal::MsgoutUbxNavTimeLsUart1(raw as u8),
        0x20910062 => CfgVal::MsgoutUbxNavTimeLsUart2(raw as u8),
        0x20910063 => CfgVal::MsgoutUbxNavTimeLsUsb(raw as u8),
        0x2091005b => CfgVal::MsgoutUbxNavTimeUtcI2c(raw as u8),
        0x2091005f => CfgVal::MsgoutUbxNavTimeUtcSpi(raw as u8),
        0x2091005c => CfgVal::MsgoutUbxNavTimeUtcUart1(raw as u8),
        0x2091005d => CfgVal::MsgoutUbxNavTimeUtcUart2(raw as u8),
        0x2091005e => CfgVal::MsgoutUbxNavTimeUtcUsb(raw as u8),
        0x2091003d => CfgVal::MsgoutUbxNavVelEcefI2c(raw as u8),
        0x20910041 => CfgVal::MsgoutUbxNavVelEcefSpi(raw as u8),
        0x2091003e => CfgVal::MsgoutUbxNavVelEcefUart1(raw as u8),
        0x2091003f => CfgVal::MsgoutUbxNavVelEcefUart2(raw as u8),
        0x20910040 => CfgVal::MsgoutUbxNavVelEcefUsb(raw as u8),
        0x20910042 => CfgVal::MsgoutUbxNavVelNedI2c(raw as u8),
        0x20910046 => CfgVal::MsgoutUbxNavVelNedSpi(raw as u8),
        0x20910043 => CfgVal::MsgoutUbxNavVelNedUart1(raw as u8),
        0x20910044 => CfgVal::MsgoutUbxNavVelNedUart2(raw as u8),
        0x20910045 => CfgVal::MsgoutUbxNavVelNedUsb(raw as u8),
        0x20910204 => CfgVal::MsgoutUbxRxmMeasxI2c(raw as u8),
        0x20910208 => CfgVal::MsgoutUbxRxmMeasxSpi(raw as u8),
        0x20910205 => CfgVal::MsgoutUbxRxmMeasxUart1(raw as u8),
        0x20910206 => CfgVal::MsgoutUbxRxmMeasxUart2(raw as u8),
        0x20910207 => CfgVal::MsgoutUbxRxmMeasxUsb(raw as u8),
        0x209102a4 => CfgVal::MsgoutUbxRxmRawxI2c(raw as u8),
        0x209102a8 => CfgVal::MsgoutUbxRxmRawxSpi(raw as u8),
        0x209102a5 => CfgVal::MsgoutUbxRxmRawxUart1(raw as u8),
        0x209102a6 => CfgVal::MsgoutUbxRxmRawxUart2(raw as u8),
        0x209102a7 => CfgVal::MsgoutUbxRxmRawxUsb(raw as u8),
        0x2091025e => CfgVal::MsgoutUbxRxmRlmI2c(raw as u8),
        0x20910262 => CfgVal::MsgoutUbxRxmRlmSpi(raw as u8),
        0x2091025f => CfgVal::MsgoutUbxRxmRlmUart1(raw as u8),
        0x20910260 => CfgVal::MsgoutUbxRxmRlmUart2(raw as u8),
        0x20910261 => CfgVal::MsgoutUbxRxmRlmUsb(raw as u8),
        0x20910268 => CfgVal::MsgoutUbxRxmRtcmI2c(raw as u8),
        0x2091026c => CfgVal::MsgoutUbxRxmRtcmSpi(raw as u8),
        0x20910269 => CfgVal::MsgoutUbxRxmRtcmUart1(raw as u8),
        0x2091026a => CfgVal::MsgoutUbxRxmRtcmUart2(raw as u8),
        0x2091026b => CfgVal::MsgoutUbxRxmRtcmUsb(raw as u8),
        0x20910231 => CfgVal::MsgoutUbxRxmSfrbxI2c(raw as u8),
        0x20910235 => CfgVal::MsgoutUbxRxmSfrbxSpi(raw as u8),
        0x20910232 => CfgVal::MsgoutUbxRxmSfrbxUart1(raw as u8),
        0x20910233 => CfgVal::MsgoutUbxRxmSfrbxUart2(raw as u8),
        0x20910234 => CfgVal::MsgoutUbxRxmSfrbxUsb(raw as u8),
        0x20910178 => CfgVal::MsgoutUbxTimTm2I2c(raw as u8),
        0x2091017c => CfgVal::MsgoutUbxTimTm2Spi(raw as u8),
        0x20910179 => CfgVal::MsgoutUbxTimTm2Uart1(raw as u8),
        0x2091017a => CfgVal::MsgoutUbxTimTm2Uart2(raw as u8),
        0x2091017b => CfgVal::MsgoutUbxTimTm2Usb(raw as u8),
        0x2091017d => CfgVal::MsgoutUbxTimTpI2c(raw as u8),
        0x20910181 => CfgVal::MsgoutUbxTimTpSpi(raw as u8),
        0x2091017e => CfgVal::MsgoutUbxTimTpUart1(raw as u8),
        0x2091017f => CfgVal::MsgoutUbxTimTpUart2(raw as u8),
        0x20910180 => CfgVal::MsgoutUbxTimTpUsb(raw as u8),
        0x20910092 => CfgVal::MsgoutUbxTimVrfyI2c(raw as u8),
        0x20910096 => CfgVal::MsgoutUbxTimVrfySpi(raw as u8),
        0x20910093 => CfgVal::MsgoutUbxTimVrfyUart1(raw as u8),
        0x20910094 => CfgVal::MsgoutUbxTimVrfyUart2(raw as u8),
        0x20910095 => CfgVal::MsgoutUbxTimVrfyUsb(raw as u8),
        0x1031001f => CfgVal::SignalGpsEna(raw & 1 == 1),
        0x10310001 => CfgVal::SignalGpsL1caEna(raw & 1 == 1),
        0x10310003 => CfgVal::SignalGpsL2cEna(raw & 1 == 1),
        0x10310021 => CfgVal::SignalGalEna(raw & 1 == 1),
        0x10310007 => CfgVal::SignalGalE1Ena(raw & 1 == 1),
        0x1031000a => CfgVal::SignalGalE5bEna(raw & 1 == 1),
        0x10310022 => CfgVal::SignalBdsEna(raw & 1 == 1),
        0x1031000d => CfgVal::SignalBdsB1Ena(raw & 1 == 1),
        0x1031000e => CfgVal::SignalBdsB2Ena(raw & 1 == 1),
        0x10310024 => CfgVal::SignalQzssEna(raw & 1 == 1),
        0x10310012 => CfgVal::SignalQzssL1caEna(raw & 1 == 1),
        0x10310015 => CfgVal::SignalQzssL2cEna(raw & 1 == 1),
        0x10310025 => CfgVal::SignalGloEna(raw & 1 == 1),
        0x10310018 => CfgVal::SignalGloL1Ena(raw & 1 == 1),
        0x1031001a => CfgVal::SignalGLoL2Ena(raw & 1 == 1),
        0x20050023 => CfgVal::TpPulseDef(if raw & 1 == 0 { cfg_val::TpPulse::Period } else { cfg_val::TpPulse::Freq }),
        0x20050030 => CfgVal::TpPulseLengthDef(if raw & 1 == 0 { cfg_val::TpPulseLength::Ratio } else { cfg_val::TpPulseLength::Length }),
        0x30050001 => CfgVal::TpAntCableDelay(raw as u16 as i16),
        0x40050002 => CfgVal::TpPeriodTp1(raw as u32),
        0x40050003 => CfgVal::TpPeriodLockTp1(raw as u32),
        0x40050024 => CfgVal::TpFreqTp1(raw as u32),
        0x40050025 => CfgVal::TpFreqLockTp1(raw as u32),
        0x40050004 => CfgVal::TpLenTp1(raw as u32),
        0x40050005 => CfgVal::TpLenLockTp1(raw as u32),
        0x10050007 => CfgVal::TpTp1Ena(raw & 1 == 1),
        0x10050008 => CfgVal::TpSyncGnssTp1(raw & 1 == 1),
        0x10050009 => CfgVal::TpUseLockedTp1(raw & 1 == 1),
        0x1005000a => CfgVal::TpAlignToTowTp1(raw & 1 == 1),
        0x1005000b => CfgVal::TpPolTp1(raw & 1 == 1),
        0x2005000c => CfgVal::TpTimegridTp1(en_AlignmentToReferenceTime((raw % 5) as i64)),
        _ => return None,
    })
}
fn align(x: &AlignmentToReferenceTime) -> u64 {
    match x {
        AlignmentToReferenceTime::Utc => 0,
        AlignmentToReferenceTime::Gps => 1,
        AlignmentToReferenceTime::Glo => 2,
        AlignmentToReferenceTime::Bds => 3,
        AlignmentToReferenceTime::Gal => 4,
    }
}
pub fn cv_read(v: &CfgVal) -> (u32, u64) {
    match v {
        CfgVal::Uart1Baudrate(x) => (0x40520001, u64::from(*x)),
        CfgVal::Uart1StopBits(x) => (0x20520002, match x { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3 }),
        CfgVal::Uart1DataBits(x) => (0x20520003, match x { DataBits::Eight => 0, DataBits::Seven => 1 }),
        CfgVal::Uart1Parity(x) => (0x20520004, match x { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2 }),
        CfgVal::Uart1Enabled(x) => (0x10520005, *x as u64),
        CfgVal::Uart1InProtUbx(x) => (0x10730001, *x as u64),
        CfgVal::Uart1InProtNmea(x) => (0x10730002, *x as u64),
        CfgVal::Uart1InProtRtcm3x(x) => (0x10730004, *x as u64),
        CfgVal::Uart1OutProtUbx(x) => (0x10740001, *x as u64),
        CfgVal::Uart1OutProtNmea(x) => (0x10740002, *x as u64),
        CfgVal::Uart1OutProtRtcm3x(x) => (0x10740004, *x as u64),
        CfgVal::Uart2Baudrate(x) => (0x40530001, u64::from(*x)),
        CfgVal::Uart2StopBits(x) => (0x20530002, match x { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3 }),
        CfgVal::Uart2DataBits(x) => (0x20530003, match x { DataBits::Eight => 0, DataBits::Seven => 1 }),
        CfgVal::Uart2Parity(x) => (0x20530004, match x { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2 }),
        CfgVal::Uart2Enabled(x) => (0x10530005, *x as u64),
        CfgVal::Uart2Remap(x) => (0x10530006, *x as u64),
        CfgVal::Uart2InProtUbx(x) => (0x10750001, *x as u64),
        CfgVal::Uart2InProtNmea(x) => (0x10750002, *x as u64),
        CfgVal::Uart2InProtRtcm3x(x) => (0x10750004, *x as u64),
        CfgVal::Uart2OutProtUbx(x) => (0x10760001, *x as u64),
        CfgVal::Uart2OutProtNmea(x) => (0x10760002, *x as u64),
        CfgVal::Uart2OutProtRtcm3x(x) => (0x10760004, *x as u64),
        CfgVal::UsbEnabled(x) => (0x10650001, *x as u64),
        CfgVal::UsbSelfpow(x) => (0x10650002, *x as u64),
        CfgVal::UsbVendorId(x) => (0x3065000a, u64::from(*x)),
        CfgVal::UsbProductId(x) => (0x3065000b, u64::from(*x)),
        CfgVal::UsbPower(x) => (0x3065000c, u64::from(*x)),
        CfgVal::UsbVendorStr0(x) => (0x5065000d, *x),
        CfgVal::UsbVendorStr1(x) => (0x5065000e, *x),
        CfgVal::UsbVendorStr2(x) => (0x5065000f, *x),
        CfgVal::UsbVendorStr3(x) => (0x50650010, *x),
        CfgVal::UsbProductStr0(x) => (0x50650011, *x),
        CfgVal::UsbProductStr1(x) => (0x50650012, *x),
        CfgVal::UsbProductStr2(x) => (0x50650013, *x),
        CfgVal::UsbProductStr3(x) => (0x50650014, *x),
        CfgVal::UsbSerialNoStr0(x) => (0x50650015, *x),
        CfgVal::UsbSerialNoStr1(x) => (0x50650016, *x),
        CfgVal::UsbSerialNoStr2(x) => (0x50650017, *x),
        CfgVal::UsbSerialNoStr3(x) => (0x50650018, *x),
        CfgVal::UsbinprotUbx(x) => (0x10770001, *x as u64),
        CfgVal::UsbinprotNmea(x) => (0x10770002, *x as u64),
        CfgVal::UsbinprotRtcm3X(x) => (0x10770004, *x as u64),
        CfgVal::UsbOutProtUbx(x) => (0x10780001, *x as u64),
        CfgVal::UsbOutProtNmea(x) => (0x10780002, *x as u64),
        CfgVal::UsbOutProtRtcm3x(x) => (0x10780004, *x as u64),
        CfgVal::InfmsgUbxI2c(x) => (0x20920001, u64::from(x.bits())),
        CfgVal::InfmsgUbxUart1(x) => (0x20920002, u64::from(x.bits())),
        CfgVal::InfmsgUbxUart2(x) => (0x20920003, u64::from(x.bits())),
        CfgVal::InfmsgUbxUsb(x) => (0x20920004, u64::from(x.bits())),
        CfgVal::InfmsgUbxSpi(x) => (0x20920005, u64::from(x.bits())),
        CfgVal::InfmsgNmeaI2c(x) => (0x20920006, u64::from(x.bits())),
        CfgVal::InfmsgNmeaUart1(x) => (0x20920007, u64::from(x.bits())),
        CfgVal::InfmsgNmeaUart2(x) => (0x20920008, u64::from(x.bits())),
        CfgVal::InfmsgNmeaUsb(x) => (0x20920009, u64::from(x.bits())),
        CfgVal::InfmsgNmeaSpi(x) => (0x2092000a, u64::from(x.bits())),
        CfgVal::RateMeas(x) => (0x30210001, u64::from(*x)),
        CfgVal::RateNav(x) => (0x30210002, u64::from(*x)),
        CfgVal::RateTimeref(x) => (0x20210003, align(x)),
        CfgVal::MsgoutNmeaIdDtmI2c(x) => (0x209100a6, u64::from(*x)),
        CfgVal::MsgoutNmeaIdDtmSpi(x) => (0x209100aa, u64::from(*x)),
        CfgVal::MsgoutNmeaIdDtmUart1(x) => (0x209100a7, u64::from(*x)),
        CfgVal::MsgoutNmeaIdDtmUart2(x) => (0x209100a8, u64::from(*x)),
        CfgVal::MsgoutNmeaIdDtmUsb(x) => (0x209100a9, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGbsI2c(x) => (0x209100dd, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGbsSpi(x) => (0x209100e1, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGbsUart1(x) => (0x209100de, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGbsUart2(x) => (0x209100df, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGbsUsb(x) => (0x209100e0, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGgaI2c(x) => (0x209100ba, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGgaSpi(x) => (0x209100be, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGgaUart1(x) => (0x209100bb, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGgaUart2(x) => (0x209100bc, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGgaUsb(x) => (0x209100bd, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGllI2c(x) => (0x209100c9, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGllSpi(x) => (0x209100cd, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGllUart1(x) => (0x209100ca, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGllUart2(x) => (0x209100cb, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGllUsb(x) => (0x209100cc, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGnsI2c(x) => (0x209100b5, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGnsSpi(x) => (0x209100b9, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGnsUart1(x) => (0x209100b6, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGnsUart2(x) => (0x209100b7, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGnsUsb(x) => (0x209100b8, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGrsI2c(x) => (0x209100ce, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGrsSpi(x) => (0x209100d2, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGrsUart1(x) => (0x209100cf, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGrsUart2(x) => (0x209100d0, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGrsUsb(x) => (0x209100d1, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsaI2c(x) => (0x209100bf, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsaSpi(x) => (0x209100c3, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsaUart1(x) => (0x209100c0, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsaUart2(x) => (0x209100c1, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsaUsb(x) => (0x209100c2, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGstI2c(x) => (0x209100d3, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGstSpi(x) => (0x209100d7, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGstUart1(x) => (0x209100d4, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGstUart2(x) => (0x209100d5, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGstUsb(x) => (0x209100d6, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsvI2c(x) => (0x209100c4, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsvSpi(x) => (0x209100c8, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsvUart1(x) => (0x209100c5, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsvUart2(x) => (0x209100c6, u64::from(*x)),
        CfgVal::MsgoutNmeaIdGsvUsb(x) => (0x209100c7, u64::from(*x)),
        CfgVal::MsgoutNmeaIdRmcI2c(x) => (0x209100ab, u64::from(*x)),
        CfgVal::MsgoutNmeaIdRmcSpi(x) => (0x209100af, u64::from(*x)),
        CfgVal::MsgoutNmeaIdRmcUart1(x) => (0x209100ac, u64::from(*x)),
        CfgVal::MsgoutNmeaIdRmcUart2(x) => (0x209100ad, u64::from(*x)),
        CfgVal::MsgoutNmeaIdRmcUsb(x) => (0x209100ae, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVlwI2c(x) => (0x209100e7, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVlwSpi(x) => (0x209100eb, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVlwUart1(x) => (0x209100e8, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVlwUart2(x) => (0x209100e9, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVlwUsb(x) => (0x209100ea, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVtgI2c(x) => (0x209100b0, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVtgSpi(x) => (0x209100b4, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVtgUart1(x) => (0x209100b1, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVtgUart2(x) => (0x209100b2, u64::from(*x)),
        CfgVal::MsgoutNmeaIdVtgUsb(x) => (0x209100b3, u64::from(*x)),
        CfgVal::MsgoutNmeaIdZdaI2c(x) => (0x209100d8, u64::from(*x)),
        CfgVal::MsgoutNmeaIdZdaSpi(x) => (0x209100dc, u64::from(*x)),
        CfgVal::MsgoutNmeaIdZdaUart1(x) => (0x209100d9, u64::from(*x)),
        CfgVal::MsgoutNmeaIdZdaUart2(x) => (0x209100da, u64::from(*x)),
        CfgVal::MsgoutNmeaIdZdaUsb(x) => (0x209100db, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolypI2c(x) => (0x209100ec, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolypSpi(x) => (0x209100f0, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolypUart1(x) => (0x209100ed, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolypUart2(x) => (0x209100ee, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolypUsb(x) => (0x209100ef, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolysI2c(x) => (0x209100f1, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolysSpi(x) => (0x209100f5, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolysUart1(x) => (0x209100f2, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolysUart2(x) => (0x209100f3, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolysUsb(x) => (0x209100f4, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolytI2c(x) => (0x209100f6, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolytSpi(x) => (0x209100fa, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolytUart1(x) => (0x209100f7, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolytUart2(x) => (0x209100f8, u64::from(*x)),
        CfgVal::MsgoutPubxIdPolytUsb(x) => (0x209100f9, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1005I2c(x) => (0x209102bd, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1005Spi(x) => (0x209102c1, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1005Uart1(x) => (0x209102be, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1005Uart2(x) => (0x209102bf, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1005Usb(x) => (0x209102c0, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1074I2c(x) => (0x2091035e, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1074Spi(x) => (0x20910362, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1074Uart1(x) => (0x2091035f, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1074Uart2(x) => (0x20910360, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1074Usb(x) => (0x20910361, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1077I2c(x) => (0x209102cc, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1077Spi(x) => (0x209102d0, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1077Uart1(x) => (0x209102cd, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1077Uart2(x) => (0x209102ce, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1077Usb(x) => (0x209102cf, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1084I2c(x) => (0x20910363, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1084Spi(x) => (0x20910367, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1084Uart1(x) => (0x20910364, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1084Uart2(x) => (0x20910365, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1084Usb(x) => (0x20910366, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1087I2c(x) => (0x209102d1, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1087Spi(x) => (0x209102d5, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1087Uart1(x) => (0x209102d2, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1087Uart2(x) => (0x209102d3, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1087Usb(x) => (0x209102d4, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1094I2c(x) => (0x20910368, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1094Spi(x) => (0x2091036c, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1094Uart1(x) => (0x20910369, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1094Uart2(x) => (0x2091036a, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1094Usb(x) => (0x2091036b, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1097I2c(x) => (0x20910318, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1097Spi(x) => (0x2091031c, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1097Uart1(x) => (0x20910319, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1097Uart2(x) => (0x2091031a, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1097Usb(x) => (0x2091031b, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1124I2c(x) => (0x2091036d, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1124Spi(x) => (0x20910371, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1124Uart1(x) => (0x2091036e, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1124Uart2(x) => (0x2091036f, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1124Usb(x) => (0x20910370, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1127I2c(x) => (0x209102d6, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1127Spi(x) => (0x209102da, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1127Uart1(x) => (0x209102d7, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1127Uart2(x) => (0x209102d8, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1127Usb(x) => (0x209102d9, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1230I2c(x) => (0x20910303, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1230Spi(x) => (0x20910307, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1230Uart1(x) => (0x20910304, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1230Uart2(x) => (0x20910305, u64::from(*x)),
        CfgVal::MsgoutRtcm3xType1230Usb(x) => (0x20910306, u64::from(*x)),
        CfgVal::MsgoutUbxLogInfoI2c(x) => (0x20910259, u64::from(*x)),
        CfgVal::MsgoutUbxLogInfoSpi(x) => (0x2091025d, u64::from(*x)),
        CfgVal::MsgoutUbxLogInfoUart1(x) => (0x2091025a, u64::from(*x)),
        CfgVal::MsgoutUbxLogInfoUart2(x) => (0x2091025b, u64::from(*x)),
        CfgVal::MsgoutUbxLogInfoUsb(x) => (0x2091025c, u64::from(*x)),
        CfgVal::MsgoutUbxMonCommsI2c(x) => (0x2091034f, u64::from(*x)),
        CfgVal::MsgoutUbxMonCommsSpi(x) => (0x20910353, u64::from(*x)),
        CfgVal::MsgoutUbxMonCommsUart1(x) => (0x20910350, u64::from(*x)),
        CfgVal::MsgoutUbxMonCommsUart2(x) => (0x20910351, u64::from(*x)),
        CfgVal::MsgoutUbxMonCommsUsb(x) => (0x20910352, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw2I2c(x) => (0x209101b9, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw2Spi(x) => (0x209101bd, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw2Uart1(x) => (0x209101ba, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw2Uart2(x) => (0x209101bb, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw2Usb(x) => (0x209101bc, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw3I2c(x) => (0x20910354, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw3Spi(x) => (0x20910358, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw3Uart1(x) => (0x20910355, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw3Uart2(x) => (0x20910356, u64::from(*x)),
        CfgVal::MsgoutUbxMonHw3Usb(x) => (0x20910357, u64::from(*x)),
        CfgVal::MsgoutUbxMonHwI2c(x) => (0x209101b4, u64::from(*x)),
        CfgVal::MsgoutUbxMonHwSpi(x) => (0x209101b8, u64::from(*x)),
        CfgVal::MsgoutUbxMonHwUart1(x) => (0x209101b5, u64::from(*x)),
        CfgVal::MsgoutUbxMonHwUart2(x) => (0x209101b6, u64::from(*x)),
        CfgVal::MsgoutUbxMonHwUsb(x) => (0x209101b7, u64::from(*x)),
        CfgVal::MsgoutUbxMonIoI2c(x) => (0x209101a5, u64::from(*x)),
        CfgVal::MsgoutUbxMonIoSpi(x) => (0x209101a9, u64::from(*x)),
        CfgVal::MsgoutUbxMonIoUart1(x) => (0x209101a6, u64::from(*x)),
        CfgVal::MsgoutUbxMonIoUart2(x) => (0x209101a7, u64::from(*x)),
        CfgVal::MsgoutUbxMonIoUsb(x) => (0x209101a8, u64::from(*x)),
        CfgVal::MsgoutUbxMonMsgPpI2c(x) => (0x20910196, u64::from(*x)),
        CfgVal::MsgoutUbxMonMsgPpSpi(x) => (0x2091019a, u64::from(*x)),
        CfgVal::MsgoutUbxMonMsgPpUart1(x) => (0x20910197, u64::from(*x)),
        CfgVal::MsgoutUbxMonMsgPpUart2(x) => (0x20910198, u64::from(*x)),
        CfgVal::MsgoutUbxMonMsgPpUsb(x) => (0x20910199, u64::from(*x)),
        CfgVal::MsgoutUbxMonRfI2c(x) => (0x20910359, u64::from(*x)),
        CfgVal::MsgoutUbxMonRfSpi(x) => (0x2091035d, u64::from(*x)),
        CfgVal::MsgoutUbxMonRfUart1(x) => (0x2091035a, u64::from(*x)),
        CfgVal::MsgoutUbxMonRfUart2(x) => (0x2091035b, u64::from(*x)),
        CfgVal::MsgoutUbxMonRfUsb(x) => (0x2091035c, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxbufI2c(x) => (0x209101a0, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxbufSpi(x) => (0x209101a4, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxbufUart1(x) => (0x209101a1, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxbufUart2(x) => (0x209101a2, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxbufUsb(x) => (0x209101a3, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxrI2c(x) => (0x20910187, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxrSpi(x) => (0x2091018b, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxrUart1(x) => (0x20910188, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxrUart2(x) => (0x20910189, u64::from(*x)),
        CfgVal::MsgoutUbxMonRxrUsb(x) => (0x2091018a, u64::from(*x)),
        CfgVal::MsgoutUbxMonTxbufI2c(x) => (0x2091019b, u64::from(*x)),
        CfgVal::MsgoutUbxMonTxbufSpi(x) => (0x2091019f, u64::from(*x)),
        CfgVal::MsgoutUbxMonTxbufUart1(x) => (0x2091019c, u64::from(*x)),
        CfgVal::MsgoutUbxMonTxbufUart2(x) => (0x2091019d, u64::from(*x)),
        CfgVal::MsgoutUbxMonTxbufUsb(x) => (0x2091019e, u64::from(*x)),
        CfgVal::MsgoutUbxNavClockI2c(x) => (0x20910065, u64::from(*x)),
        CfgVal::MsgoutUbxNavClockSpi(x) => (0x20910069, u64::from(*x)),
        CfgVal::MsgoutUbxNavClockUart1(x) => (0x20910066, u64::from(*x)),
        CfgVal::MsgoutUbxNavClockUart2(x) => (0x20910067, u64::from(*x)),
        CfgVal::MsgoutUbxNavClockUsb(x) => (0x20910068, u64::from(*x)),
        CfgVal::MsgoutUbxNavDopI2c(x) => (0x20910038, u64::from(*x)),
        CfgVal::MsgoutUbxNavDopSpi(x) => (0x2091003c, u64::from(*x)),
        CfgVal::MsgoutUbxNavDopUart1(x) => (0x20910039, u64::from(*x)),
        CfgVal::MsgoutUbxNavDopUart2(x) => (0x2091003a, u64::from(*x)),
        CfgVal::MsgoutUbxNavDopUsb(x) => (0x2091003b, u64::from(*x)),
        CfgVal::MsgoutUbxNavEoeI2c(x) => (0x2091015f, u64::from(*x)),
        CfgVal::MsgoutUbxNavEoeSpi(x) => (0x20910163, u64::from(*x)),
        CfgVal::MsgoutUbxNavEoeUart1(x) => (0x20910160, u64::from(*x)),
        CfgVal::MsgoutUbxNavEoeUart2(x) => (0x20910161, u64::from(*x)),
        CfgVal::MsgoutUbxNavEoeUsb(x) => (0x20910162, u64::from(*x)),
        CfgVal::MsgoutUbxNavGeofenceI2c(x) => (0x209100a1, u64::from(*x)),
        CfgVal::MsgoutUbxNavGeofenceSpi(x) => (0x209100a5, u64::from(*x)),
        CfgVal::MsgoutUbxNavGeofenceUart1(x) => (0x209100a2, u64::from(*x)),
        CfgVal::MsgoutUbxNavGeofenceUart2(x) => (0x209100a3, u64::from(*x)),
        CfgVal::MsgoutUbxNavGeofenceUsb(x) => (0x209100a4, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosEcefI2c(x) => (0x2091002e, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosEcefSpi(x) => (0x20910032, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosEcefUart1(x) => (0x2091002f, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosEcefUart2(x) => (0x20910030, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosEcefUsb(x) => (0x20910031, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosllhI2c(x) => (0x20910033, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosllhSpi(x) => (0x20910037, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosllhUart1(x) => (0x20910034, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosllhUart2(x) => (0x20910035, u64::from(*x)),
        CfgVal::MsgoutUbxNavHpPosllhUsb(x) => (0x20910036, u64::from(*x)),
        CfgVal::MsgoutUbxNavOdoI2c(x) => (0x2091007e, u64::from(*x)),
        CfgVal::MsgoutUbxNavOdoSpi(x) => (0x20910082, u64::from(*x)),
        CfgVal::MsgoutUbxNavOdoUart1(x) => (0x2091007f, u64::from(*x)),
        CfgVal::MsgoutUbxNavOdoUart2(x) => (0x20910080, u64::from(*x)),
        CfgVal::MsgoutUbxNavOdoUsb(x) => (0x20910081, u64::from(*x)),
        CfgVal::MsgoutUbxNavOrbI2c(x) => (0x20910010, u64::from(*x)),
        CfgVal::MsgoutUbxNavOrbSpi(x) => (0x20910014, u64::from(*x)),
        CfgVal::MsgoutUbxNavOrbUart1(x) => (0x20910011, u64::from(*x)),
        CfgVal::MsgoutUbxNavOrbUart2(x) => (0x20910012, u64::from(*x)),
        CfgVal::MsgoutUbxNavOrbUsb(x) => (0x20910013, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosEcefI2c(x) => (0x20910024, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosEcefSpi(x) => (0x20910028, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosEcefUart1(x) => (0x20910025, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosEcefUart2(x) => (0x20910026, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosEcefUsb(x) => (0x20910027, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosLlhI2c(x) => (0x20910029, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosLlhSpi(x) => (0x2091002d, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosLlhUart1(x) => (0x2091002a, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosLlhUart2(x) => (0x2091002b, u64::from(*x)),
        CfgVal::MsgoutUbxNavPosLlhUsb(x) => (0x2091002c, u64::from(*x)),
        CfgVal::MsgoutUbxNavPvtI2c(x) => (0x20910006, u64::from(*x)),
        CfgVal::MsgoutUbxNavPvtSpi(x) => (0x2091000a, u64::from(*x)),
        CfgVal::MsgoutUbxNavPvtUart1(x) => (0x20910007, u64::from(*x)),
        CfgVal::MsgoutUbxNavPvtUart2(x) => (0x20910008, u64::from(*x)),
        CfgVal::MsgoutUbxNavPvtUsb(x) => (0x20910009, u64::from(*x)),
        CfgVal::MsgoutUbxNavRelposnedI2c(x) => (0x2091008d, u64::from(*x)),
        CfgVal::MsgoutUbxNavRelposnedSpi(x) => (0x20910091, u64::from(*x)),
        CfgVal::MsgoutUbxNavRelposnedUart1(x) => (0x2091008e, u64::from(*x)),
        CfgVal::MsgoutUbxNavRelposnedUart2(x) => (0x2091008f, u64::from(*x)),
        CfgVal::MsgoutUbxNavRelposnedUsb(x) => (0x20910090, u64::from(*x)),
        CfgVal::MsgoutUbxNavSatI2c(x) => (0x20910015, u64::from(*x)),
        CfgVal::MsgoutUbxNavSatSpi(x) => (0x20910019, u64::from(*x)),
        CfgVal::MsgoutUbxNavSatUart1(x) => (0x20910016, u64::from(*x)),
        CfgVal::MsgoutUbxNavSatUart2(x) => (0x20910017, u64::from(*x)),
        CfgVal::MsgoutUbxNavSatUsb(x) => (0x20910018, u64::from(*x)),
        CfgVal::MsgoutUbxNavSigI2c(x) => (0x20910345, u64::from(*x)),
        CfgVal::MsgoutUbxNavSigSpi(x) => (0x20910349, u64::from(*x)),
        CfgVal::MsgoutUbxNavSigUart1(x) => (0x20910346, u64::from(*x)),
        CfgVal::MsgoutUbxNavSigUart2(x) => (0x20910347, u64::from(*x)),
        CfgVal::MsgoutUbxNavSigUsb(x) => (0x20910348, u64::from(*x)),
        CfgVal::MsgoutUbxNavStatusI2c(x) => (0x2091001a, u64::from(*x)),
        CfgVal::MsgoutUbxNavStatusSpi(x) => (0x2091001e, u64::from(*x)),
        CfgVal::MsgoutUbxNavStatusUart1(x) => (0x2091001b, u64::from(*x)),
        CfgVal::MsgoutUbxNavStatusUart2(x) => (0x2091001c, u64::from(*x)),
        CfgVal::MsgoutUbxNavStatusUsb(x) => (0x2091001d, u64::from(*x)),
        CfgVal::MsgoutUbxNavSvinI2c(x) => (0x20910088, u64::from(*x)),
        CfgVal::MsgoutUbxNavSvinSpi(x) => (0x2091008c, u64::from(*x)),
        CfgVal::MsgoutUbxNavSvinUart1(x) => (0x20910089, u64::from(*x)),
        CfgVal::MsgoutUbxNavSvinUart2(x) => (0x2091008a, u64::from(*x)),
        CfgVal::MsgoutUbxNavSvinUsb(x) => (0x2091008b, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeBdsI2c(x) => (0x20910051, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeBdsSpi(x) => (0x20910055, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeBdsUart1(x) => (0x20910052, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeBdsUart2(x) => (0x20910053, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeBdsUsb(x) => (0x20910054, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGalI2c(x) => (0x20910056, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGalSpi(x) => (0x2091005a, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGalUart1(x) => (0x20910057, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGalUart2(x) => (0x20910058, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGalUsb(x) => (0x20910059, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGloI2c(x) => (0x2091004c, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGloSpi(x) => (0x20910050, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGloUart1(x) => (0x2091004d, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGloUart2(x) => (0x2091004e, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGloUsb(x) => (0x2091004f, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGpsI2c(x) => (0x20910047, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGpsSpi(x) => (0x2091004b, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGpsUart1(x) => (0x20910048, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGpsUart2(x) => (0x20910049, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeGpsUsb(x) => (0x2091004a, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeLsI2c(x) => (0x20910060, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeLsSpi(x) => (0x20910064, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeLsUart1(x) => (0x20910061, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeLsUart2(x) => (0x20910062, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeLsUsb(x) => (0x20910063, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeUtcI2c(x) => (0x2091005b, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeUtcSpi(x) => (0x2091005f, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeUtcUart1(x) => (0x2091005c, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeUtcUart2(x) => (0x2091005d, u64::from(*x)),
        CfgVal::MsgoutUbxNavTimeUtcUsb(x) => (0x2091005e, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelEcefI2c(x) => (0x2091003d, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelEcefSpi(x) => (0x20910041, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelEcefUart1(x) => (0x2091003e, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelEcefUart2(x) => (0x2091003f, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelEcefUsb(x) => (0x20910040, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelNedI2c(x) => (0x20910042, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelNedSpi(x) => (0x20910046, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelNedUart1(x) => (0x20910043, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelNedUart2(x) => (0x20910044, u64::from(*x)),
        CfgVal::MsgoutUbxNavVelNedUsb(x) => (0x20910045, u64::from(*x)),
        CfgVal::MsgoutUbxRxmMeasxI2c(x) => (0x20910204, u64::from(*x)),
        CfgVal::MsgoutUbxRxmMeasxSpi(x) => (0x20910208, u64::from(*x)),
        CfgVal::MsgoutUbxRxmMeasxUart1(x) => (0x20910205, u64::from(*x)),
        CfgVal::MsgoutUbxRxmMeasxUart2(x) => (0x20910206, u64::from(*x)),
        CfgVal::MsgoutUbxRxmMeasxUsb(x) => (0x20910207, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRawxI2c(x) => (0x209102a4, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRawxSpi(x) => (0x209102a8, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRawxUart1(x) => (0x209102a5, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRawxUart2(x) => (0x209102a6, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRawxUsb(x) => (0x209102a7, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRlmI2c(x) => (0x2091025e, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRlmSpi(x) => (0x20910262, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRlmUart1(x) => (0x2091025f, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRlmUart2(x) => (0x20910260, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRlmUsb(x) => (0x20910261, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRtcmI2c(x) => (0x20910268, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRtcmSpi(x) => (0x2091026c, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRtcmUart1(x) => (0x20910269, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRtcmUart2(x) => (0x2091026a, u64::from(*x)),
        CfgVal::MsgoutUbxRxmRtcmUsb(x) => (0x2091026b, u64::from(*x)),
        CfgVal::MsgoutUbxRxmSfrbxI2c(x) => (0x20910231, u64::from(*x)),
        CfgVal::MsgoutUbxRxmSfrbxSpi(x) => (0x20910235, u64::from(*x)),
        CfgVal::MsgoutUbxRxmSfrbxUart1(x) => (0x20910232, u64::from(*x)),
        CfgVal::MsgoutUbxRxmSfrbxUart2(x) => (0x20910233, u64::from(*x)),
        CfgVal::MsgoutUbxRxmSfrbxUsb(x) => (0x20910234, u64::from(*x)),
        CfgVal::MsgoutUbxTimTm2I2c(x) => (0x20910178, u64::from(*x)),
        CfgVal::MsgoutUbxTimTm2Spi(x) => (0x2091017c, u64::from(*x)),
        CfgVal::MsgoutUbxTimTm2Uart1(x) => (0x20910179, u64::from(*x)),
        CfgVal::MsgoutUbxTimTm2Uart2(x) => (0x2091017a, u64::from(*x)),
        CfgVal::MsgoutUbxTimTm2Usb(x) => (0x2091017b, u64::from(*x)),
        CfgVal::MsgoutUbxTimTpI2c(x) => (0x2091017d, u64::from(*x)),
        CfgVal::MsgoutUbxTimTpSpi(x) => (0x20910181, u64::from(*x)),
        CfgVal::MsgoutUbxTimTpUart1(x) => (0x2091017e, u64::from(*x)),
        CfgVal::MsgoutUbxTimTpUart2(x) => (0x2091017f, u64::from(*x)),
        CfgVal::MsgoutUbxTimTpUsb(x) => (0x20910180, u64::from(*x)),
        CfgVal::MsgoutUbxTimVrfyI2c(x) => (0x20910092, u64::from(*x)),
        CfgVal::MsgoutUbxTimVrfySpi(x) => (0x20910096, u64::from(*x)),
        CfgVal::MsgoutUbxTimVrfyUart1(x) => (0x20910093, u64::from(*x)),
        CfgVal::MsgoutUbxTimVrfyUart2(x) => (0x20910094, u64::from(*x)),
        CfgVal::MsgoutUbxTimVrfyUsb(x) => (0x20910095, u64::from(*x)),
        CfgVal::SignalGpsEna(x) => (0x1031001f, *x as u64),
        CfgVal::SignalGpsL1caEna(x) => (0x10310001, *x as u64),
        CfgVal::SignalGpsL2cEna(x) => (0x10310003, *x as u64),
        CfgVal::SignalGalEna(x) => (0x10310021, *x as u64),
        CfgVal::SignalGalE1Ena(x) => (0x10310007, *x as u64),
        CfgVal::SignalGalE5bEna(x) => (0x1031000a, *x as u64),
        CfgVal::SignalBdsEna(x) => (0x10310022, *x as u64),
        CfgVal::SignalBdsB1Ena(x) => (0x1031000d, *x as u64),
        CfgVal::SignalBdsB2Ena(x) => (0x1031000e, *x as u64),
        CfgVal::SignalQzssEna(x) => (0x10310024, *x as u64),
        CfgVal::SignalQzssL1caEna(x) => (0x10310012, *x as u64),
        CfgVal::SignalQzssL2cEna(x) => (0x10310015, *x as u64),
        CfgVal::SignalGloEna(x) => (0x10310025, *x as u64),
        CfgVal::SignalGloL1Ena(x) => (0x10310018, *x as u64),
        CfgVal::SignalGLoL2Ena(x) => (0x1031001a, *x as u64),
        CfgVal::TpPulseDef(x) => (0x20050023, match x { cfg_val::TpPulse::Period => 0, cfg_val::TpPulse::Freq => 1 }),
        CfgVal::TpPulseLengthDef(x) => (0x20050030, match x { cfg_val::TpPulseLength::Ratio => 0, cfg_val::TpPulseLength::Length => 1 }),
        CfgVal::TpAntCableDelay(x) => (0x30050001, u64::from(*x as u16)),
        CfgVal::TpPeriodTp1(x) => (0x40050002, u64::from(*x)),
        CfgVal::TpPeriodLockTp1(x) => (0x40050003, u64::from(*x)),
        CfgVal::TpFreqTp1(x) => (0x40050024, u64::from(*x)),
        CfgVal::TpFreqLockTp1(x) => (0x40050025, u64::from(*x)),
        CfgVal::TpLenTp1(x) => (0x40050004, u64::from(*x)),
        CfgVal::TpLenLockTp1(x) => (0x40050005, u64::from(*x)),
        CfgVal::TpTp1Ena(x) => (0x10050007, *x as u64),
        CfgVal::TpSyncGnssTp1(x) => (0x10050008, *x as u64),
        CfgVal::TpUseLockedTp1(x) => (0x10050009, *x as u64),
        CfgVal::TpAlignToTowTp1(x) => (0x1005000a, *x as u64),
        CfgVal::TpPolTp1(x) => (0x1005000b, *x as u64),
        CfgVal::TpTimegridTp1(x) => (0x2005000c, align(x)),
        _ => (0, 0),
    }
}

/// Commands whose builder may start from defaults.
pub const DEFAULTED: &[&str] = &["CfgOdo", "CfgInf", "AidIni", "CfgTp5", "CfgTmode2", "CfgTmode3", "CfgPrtI2c", "CfgPrtSpi", "CfgNav5", "CfgNavX5"];
/// Fields whose default is not zero.
pub const DEFAULTS: &[(&str, &str, i64)] = &[("CfgNav5", "dyn_model", 8), ("CfgNav5", "fix_mode", 3), ("CfgPrtSpi", "portid", 4)];
/// `$b` is the default builder of command `$k` with some fields set.
#[macro_export]
macro_rules! with_default {
    ($k:expr, $v:expr, $b:ident => $e:expr, $none:expr) => {
        match $k {
            "CfgOdo" => { let mut $b = ublox::CfgOdoBuilder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgOdo(&mut $b, f, x); } } $e },
            "CfgInf" => { let mut $b = ublox::CfgInfBuilder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgInf(&mut $b, f, x); } } $e },
            "AidIni" => { let mut $b = ublox::AidIniBuilder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_AidIni(&mut $b, f, x); } } $e },
            "CfgTp5" => { let mut $b = ublox::CfgTp5Builder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgTp5(&mut $b, f, x); } } $e },
            "CfgTmode2" => { let mut $b = ublox::CfgTmode2Builder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgTmode2(&mut $b, f, x); } } $e },
            "CfgTmode3" => { let mut $b = ublox::CfgTmode3Builder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgTmode3(&mut $b, f, x); } } $e },
            "CfgPrtI2c" => { let mut $b = ublox::CfgPrtI2cBuilder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgPrtI2c(&mut $b, f, x); } } $e },
            "CfgPrtSpi" => { let mut $b = ublox::CfgPrtSpiBuilder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgPrtSpi(&mut $b, f, x); } } $e },
            "CfgNav5" => { let mut $b = ublox::CfgNav5Builder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgNav5(&mut $b, f, x); } } $e },
            "CfgNavX5" => { let mut $b = ublox::CfgNavX5Builder::default(); for (f, x) in $v { if let Some(x) = x { $crate::gen_cmd::set_CfgNavX5(&mut $b, f, x); } } $e },
            _ => $none,
        }
    };
}
