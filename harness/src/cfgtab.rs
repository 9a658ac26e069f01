// Generated by spec/gen.py.
#![allow(clippy::all)]
use ublox::cfg_val::*;
use ublox::*;
use crate::cfgv::*;

pub static KEYS: &[(&str, u32, Kt)] = &[
  ("Uart1Baudrate", 0x40520001, Kt::U32),
  ("Uart1StopBits", 0x20520002, Kt::StopBits),
  ("Uart1DataBits", 0x20520003, Kt::DataBits),
  ("Uart1Parity", 0x20520004, Kt::Parity),
  ("Uart1Enabled", 0x10520005, Kt::Bool),
  ("Uart1InProtUbx", 0x10730001, Kt::Bool),
  ("Uart1InProtNmea", 0x10730002, Kt::Bool),
  ("Uart1InProtRtcm3x", 0x10730004, Kt::Bool),
  ("Uart1OutProtUbx", 0x10740001, Kt::Bool),
  ("Uart1OutProtNmea", 0x10740002, Kt::Bool),
  ("Uart1OutProtRtcm3x", 0x10740004, Kt::Bool),
  ("Uart2Baudrate", 0x40530001, Kt::U32),
  ("Uart2StopBits", 0x20530002, Kt::StopBits),
  ("Uart2DataBits", 0x20530003, Kt::DataBits),
  ("Uart2Parity", 0x20530004, Kt::Parity),
  ("Uart2Enabled", 0x10530005, Kt::Bool),
  ("Uart2Remap", 0x10530006, Kt::Bool),
  ("Uart2InProtUbx", 0x10750001, Kt::Bool),
  ("Uart2InProtNmea", 0x10750002, Kt::Bool),
  ("Uart2InProtRtcm3x", 0x10750004, Kt::Bool),
  ("Uart2OutProtUbx", 0x10760001, Kt::Bool),
  ("Uart2OutProtNmea", 0x10760002, Kt::Bool),
  ("Uart2OutProtRtcm3x", 0x10760004, Kt::Bool),
  ("UsbEnabled", 0x10650001, Kt::Bool),
  ("UsbSelfpow", 0x10650002, Kt::Bool),
  ("UsbVendorId", 0x3065000a, Kt::U16),
  ("UsbProductId", 0x3065000b, Kt::U16),
  ("UsbPower", 0x3065000c, Kt::U16),
  ("UsbVendorStr0", 0x5065000d, Kt::U64),
  ("UsbVendorStr1", 0x5065000e, Kt::U64),
  ("UsbVendorStr2", 0x5065000f, Kt::U64),
  ("UsbVendorStr3", 0x50650010, Kt::U64),
  ("UsbProductStr0", 0x50650011, Kt::U64),
  ("UsbProductStr1", 0x50650012, Kt::U64),
  ("UsbProductStr2", 0x50650013, Kt::U64),
  ("UsbProductStr3", 0x50650014, Kt::U64),
  ("UsbSerialNoStr0", 0x50650015, Kt::U64),
  ("UsbSerialNoStr1", 0x50650016, Kt::U64),
  ("UsbSerialNoStr2", 0x50650017, Kt::U64),
  ("UsbSerialNoStr3", 0x50650018, Kt::U64),
  ("UsbinprotUbx", 0x10770001, Kt::Bool),
  ("UsbinprotNmea", 0x10770002, Kt::Bool),
  ("UsbinprotRtcm3X", 0x10770004, Kt::Bool),
  ("UsbOutProtUbx", 0x10780001, Kt::Bool),
  ("UsbOutProtNmea", 0x10780002, Kt::Bool),
  ("UsbOutProtRtcm3x", 0x10780004, Kt::Bool),
  ("InfmsgUbxI2c", 0x20920001, Kt::Inf),
  ("InfmsgUbxUart1", 0x20920002, Kt::Inf),
  ("InfmsgUbxUart2", 0x20920003, Kt::Inf),
  ("InfmsgUbxUsb", 0x20920004, Kt::Inf),
  ("InfmsgUbxSpi", 0x20920005, Kt::Inf),
  ("InfmsgNmeaI2c", 0x20920006, Kt::Inf),
  ("InfmsgNmeaUart1", 0x20920007, Kt::Inf),
  ("InfmsgNmeaUart2", 0x20920008, Kt::Inf),
  ("InfmsgNmeaUsb", 0x20920009, Kt::Inf),
  ("InfmsgNmeaSpi", 0x2092000a, Kt::Inf),
  ("RateMeas", 0x30210001, Kt::U16),
  ("RateNav", 0x30210002, Kt::U16),
  ("RateTimeref", 0x20210003, Kt::Align),
  ("MsgoutNmeaIdDtmI2c", 0x209100a6, Kt::U8),
  ("MsgoutNmeaIdDtmSpi", 0x209100aa, Kt::U8),
  ("MsgoutNmeaIdDtmUart1", 0x209100a7, Kt::U8),
  ("MsgoutNmeaIdDtmUart2", 0x209100a8, Kt::U8),
  ("MsgoutNmeaIdDtmUsb", 0x209100a9, Kt::U8),
  ("MsgoutNmeaIdGbsI2c", 0x209100dd, Kt::U8),
  ("MsgoutNmeaIdGbsSpi", 0x209100e1, Kt::U8),
  ("MsgoutNmeaIdGbsUart1", 0x209100de, Kt::U8),
  ("MsgoutNmeaIdGbsUart2", 0x209100df, Kt::U8),
  ("MsgoutNmeaIdGbsUsb", 0x209100e0, Kt::U8),
  ("MsgoutNmeaIdGgaI2c", 0x209100ba, Kt::U8),
  ("MsgoutNmeaIdGgaSpi", 0x209100be, Kt::U8),
  ("MsgoutNmeaIdGgaUart1", 0x209100bb, Kt::U8),
  ("MsgoutNmeaIdGgaUart2", 0x209100bc, Kt::U8),
  ("MsgoutNmeaIdGgaUsb", 0x209100bd, Kt::U8),
  ("MsgoutNmeaIdGllI2c", 0x209100c9, Kt::U8),
  ("MsgoutNmeaIdGllSpi", 0x209100cd, Kt::U8),
  ("MsgoutNmeaIdGllUart1", 0x209100ca, Kt::U8),
  ("MsgoutNmeaIdGllUart2", 0x209100cb, Kt::U8),
  ("MsgoutNmeaIdGllUsb", 0x209100cc, Kt::U8),
  ("MsgoutNmeaIdGnsI2c", 0x209100b5, Kt::U8),
  ("MsgoutNmeaIdGnsSpi", 0x209100b9, Kt::U8),
  ("MsgoutNmeaIdGnsUart1", 0x209100b6, Kt::U8),
  ("MsgoutNmeaIdGnsUart2", 0x209100b7, Kt::U8),
  ("MsgoutNmeaIdGnsUsb", 0x209100b8, Kt::U8),
  ("MsgoutNmeaIdGrsI2c", 0x209100ce, Kt::U8),
  ("MsgoutNmeaIdGrsSpi", 0x209100d2, Kt::U8),
  ("MsgoutNmeaIdGrsUart1", 0x209100cf, Kt::U8),
  ("MsgoutNmeaIdGrsUart2", 0x209100d0, Kt::U8),
  ("MsgoutNmeaIdGrsUsb", 0x209100d1, Kt::U8),
  ("MsgoutNmeaIdGsaI2c", 0x209100bf, Kt::U8),
  ("MsgoutNmeaIdGsaSpi", 0x209100c3, Kt::U8),
  ("MsgoutNmeaIdGsaUart1", 0x209100c0, Kt::U8),
  ("MsgoutNmeaIdGsaUart2", 0x209100c1, Kt::U8),
  ("MsgoutNmeaIdGsaUsb", 0x209100c2, Kt::U8),
  ("MsgoutNmeaIdGstI2c", 0x209100d3, Kt::U8),
  ("MsgoutNmeaIdGstSpi", 0x209100d7, Kt::U8),
  ("MsgoutNmeaIdGstUart1", 0x209100d4, Kt::U8),
  ("MsgoutNmeaIdGstUart2", 0x209100d5, Kt::U8),
  ("MsgoutNmeaIdGstUsb", 0x209100d6, Kt::U8),
  ("MsgoutNmeaIdGsvI2c", 0x209100c4, Kt::U8),
  ("MsgoutNmeaIdGsvSpi", 0x209100c8, Kt::U8),
  ("MsgoutNmeaIdGsvUart1", 0x209100c5, Kt::U8),
  ("MsgoutNmeaIdGsvUart2", 0x209100c6, Kt::U8),
  ("MsgoutNmeaIdGsvUsb", 0x209100c7, Kt::U8),
  ("MsgoutNmeaIdRmcI2c", 0x209100ab, Kt::U8),
  ("MsgoutNmeaIdRmcSpi", 0x209100af, Kt::U8),
  ("MsgoutNmeaIdRmcUart1", 0x209100ac, Kt::U8),
  ("MsgoutNmeaIdRmcUart2", 0x209100ad, Kt::U8),
  ("MsgoutNmeaIdRmcUsb", 0x209100ae, Kt::U8),
  ("MsgoutNmeaIdVlwI2c", 0x209100e7, Kt::U8),
  ("MsgoutNmeaIdVlwSpi", 0x209100eb, Kt::U8),
  ("MsgoutNmeaIdVlwUart1", 0x209100e8, Kt::U8),
  ("MsgoutNmeaIdVlwUart2", 0x209100e9, Kt::U8),
  ("MsgoutNmeaIdVlwUsb", 0x209100ea, Kt::U8),
  ("MsgoutNmeaIdVtgI2c", 0x209100b0, Kt::U8),
  ("MsgoutNmeaIdVtgSpi", 0x209100b4, Kt::U8),
  ("MsgoutNmeaIdVtgUart1", 0x209100b1, Kt::U8),
  ("MsgoutNmeaIdVtgUart2", 0x209100b2, Kt::U8),
  ("MsgoutNmeaIdVtgUsb", 0x209100b3, Kt::U8),
  ("MsgoutNmeaIdZdaI2c", 0x209100d8, Kt::U8),
  ("MsgoutNmeaIdZdaSpi", 0x209100dc, Kt::U8),
  ("MsgoutNmeaIdZdaUart1", 0x209100d9, Kt::U8),
  ("MsgoutNmeaIdZdaUart2", 0x209100da, Kt::U8),
  ("MsgoutNmeaIdZdaUsb", 0x209100db, Kt::U8),
  ("MsgoutPubxIdPolypI2c", 0x209100ec, Kt::U8),
  ("MsgoutPubxIdPolypSpi", 0x209100f0, Kt::U8),
  ("MsgoutPubxIdPolypUart1", 0x209100ed, Kt::U8),
  ("MsgoutPubxIdPolypUart2", 0x209100ee, Kt::U8),
  ("MsgoutPubxIdPolypUsb", 0x209100ef, Kt::U8),
  ("MsgoutPubxIdPolysI2c", 0x209100f1, Kt::U8),
  ("MsgoutPubxIdPolysSpi", 0x209100f5, Kt::U8),
  ("MsgoutPubxIdPolysUart1", 0x209100f2, Kt::U8),
  ("MsgoutPubxIdPolysUart2", 0x209100f3, Kt::U8),
  ("MsgoutPubxIdPolysUsb", 0x209100f4, Kt::U8),
  ("MsgoutPubxIdPolytI2c", 0x209100f6, Kt::U8),
  ("MsgoutPubxIdPolytSpi", 0x209100fa, Kt::U8),
  ("MsgoutPubxIdPolytUart1", 0x209100f7, Kt::U8),
  ("MsgoutPubxIdPolytUart2", 0x209100f8, Kt::U8),
  ("MsgoutPubxIdPolytUsb", 0x209100f9, Kt::U8),
  ("MsgoutRtcm3xType1005I2c", 0x209102bd, Kt::U8),
  ("MsgoutRtcm3xType1005Spi", 0x209102c1, Kt::U8),
  ("MsgoutRtcm3xType1005Uart1", 0x209102be, Kt::U8),
  ("MsgoutRtcm3xType1005Uart2", 0x209102bf, Kt::U8),
  ("MsgoutRtcm3xType1005Usb", 0x209102c0, Kt::U8),
  ("MsgoutRtcm3xType1074I2c", 0x2091035e, Kt::U8),
  ("MsgoutRtcm3xType1074Spi", 0x20910362, Kt::U8),
  ("MsgoutRtcm3xType1074Uart1", 0x2091035f, Kt::U8),
  ("MsgoutRtcm3xType1074Uart2", 0x20910360, Kt::U8),
  ("MsgoutRtcm3xType1074Usb", 0x20910361, Kt::U8),
  ("MsgoutRtcm3xType1077I2c", 0x209102cc, Kt::U8),
  ("MsgoutRtcm3xType1077Spi", 0x209102d0, Kt::U8),
  ("MsgoutRtcm3xType1077Uart1", 0x209102cd, Kt::U8),
  ("MsgoutRtcm3xType1077Uart2", 0x209102ce, Kt::U8),
  ("MsgoutRtcm3xType1077Usb", 0x209102cf, Kt::U8),
  ("MsgoutRtcm3xType1084I2c", 0x20910363, Kt::U8),
  ("MsgoutRtcm3xType1084Spi", 0x20910367, Kt::U8),
  ("MsgoutRtcm3xType1084Uart1", 0x20910364, Kt::U8),
  ("MsgoutRtcm3xType1084Uart2", 0x20910365, Kt::U8),
  ("MsgoutRtcm3xType1084Usb", 0x20910366, Kt::U8),
  ("MsgoutRtcm3xType1087I2c", 0x209102d1, Kt::U8),
  ("MsgoutRtcm3xType1087Spi", 0x209102d5, Kt::U8),
  ("MsgoutRtcm3xType1087Uart1", 0x209102d2, Kt::U8),
  ("MsgoutRtcm3xType1087Uart2", 0x209102d3, Kt::U8),
  ("MsgoutRtcm3xType1087Usb", 0x209102d4, Kt::U8),
  ("MsgoutRtcm3xType1094I2c", 0x20910368, Kt::U8),
  ("MsgoutRtcm3xType1094Spi", 0x2091036c, Kt::U8),
  ("MsgoutRtcm3xType1094Uart1", 0x20910369, Kt::U8),
  ("MsgoutRtcm3xType1094Uart2", 0x2091036a, Kt::U8),
  ("MsgoutRtcm3xType1094Usb", 0x2091036b, Kt::U8),
  ("MsgoutRtcm3xType1097I2c", 0x20910318, Kt::U8),
  ("MsgoutRtcm3xType1097Spi", 0x2091031c, Kt::U8),
  ("MsgoutRtcm3xType1097Uart1", 0x20910319, Kt::U8),
  ("MsgoutRtcm3xType1097Uart2", 0x2091031a, Kt::U8),
  ("MsgoutRtcm3xType1097Usb", 0x2091031b, Kt::U8),
  ("MsgoutRtcm3xType1124I2c", 0x2091036d, Kt::U8),
  ("MsgoutRtcm3xType1124Spi", 0x20910371, Kt::U8),
  ("MsgoutRtcm3xType1124Uart1", 0x2091036e, Kt::U8),
  ("MsgoutRtcm3xType1124Uart2", 0x2091036f, Kt::U8),
  ("MsgoutRtcm3xType1124Usb", 0x20910370, Kt::U8),
  ("MsgoutRtcm3xType1127I2c", 0x209102d6, Kt::U8),
  ("MsgoutRtcm3xType1127Spi", 0x209102da, Kt::U8),
  ("MsgoutRtcm3xType1127Uart1", 0x209102d7, Kt::U8),
  ("MsgoutRtcm3xType1127Uart2", 0x209102d8, Kt::U8),
  ("MsgoutRtcm3xType1127Usb", 0x209102d9, Kt::U8),
  ("MsgoutRtcm3xType1230I2c", 0x20910303, Kt::U8),
  ("MsgoutRtcm3xType1230Spi", 0x20910307, Kt::U8),
  ("MsgoutRtcm3xType1230Uart1", 0x20910304, Kt::U8),
  ("MsgoutRtcm3xType1230Uart2", 0x20910305, Kt::U8),
  ("MsgoutRtcm3xType1230Usb", 0x20910306, Kt::U8),
  ("MsgoutUbxLogInfoI2c", 0x20910259, Kt::U8),
  ("MsgoutUbxLogInfoSpi", 0x2091025d, Kt::U8),
  ("MsgoutUbxLogInfoUart1", 0x2091025a, Kt::U8),
  ("MsgoutUbxLogInfoUart2", 0x2091025b, Kt::U8),
  ("MsgoutUbxLogInfoUsb", 0x2091025c, Kt::U8),
  ("MsgoutUbxMonCommsI2c", 0x2091034f, Kt::U8),
  ("MsgoutUbxMonCommsSpi", 0x20910353, Kt::U8),
  ("MsgoutUbxMonCommsUart1", 0x20910350, Kt::U8),
  ("MsgoutUbxMonCommsUart2", 0x20910351, Kt::U8),
  ("MsgoutUbxMonCommsUsb", 0x20910352, Kt::U8),
  ("MsgoutUbxMonHw2I2c", 0x209101b9, Kt::U8),
  ("MsgoutUbxMonHw2Spi", 0x209101bd, Kt::U8),
  ("MsgoutUbxMonHw2Uart1", 0x209101ba, Kt::U8),
  ("MsgoutUbxMonHw2Uart2", 0x209101bb, Kt::U8),
  ("MsgoutUbxMonHw2Usb", 0x209101bc, Kt::U8),
  ("MsgoutUbxMonHw3I2c", 0x20910354, Kt::U8),
  ("MsgoutUbxMonHw3Spi", 0x20910358, Kt::U8),
  ("MsgoutUbxMonHw3Uart1", 0x20910355, Kt::U8),
  ("MsgoutUbxMonHw3Uart2", 0x20910356, Kt::U8),
  ("MsgoutUbxMonHw3Usb", 0x20910357, Kt::U8),
  ("MsgoutUbxMonHwI2c", 0x209101b4, Kt::U8),
  ("MsgoutUbxMonHwSpi", 0x209101b8, Kt::U8),
  ("MsgoutUbxMonHwUart1", 0x209101b5, Kt::U8),
  ("MsgoutUbxMonHwUart2", 0x209101b6, Kt::U8),
  ("MsgoutUbxMonHwUsb", 0x209101b7, Kt::U8),
  ("MsgoutUbxMonIoI2c", 0x209101a5, Kt::U8),
  ("MsgoutUbxMonIoSpi", 0x209101a9, Kt::U8),
  ("MsgoutUbxMonIoUart1", 0x209101a6, Kt::U8),
  ("MsgoutUbxMonIoUart2", 0x209101a7, Kt::U8),
  ("MsgoutUbxMonIoUsb", 0x209101a8, Kt::U8),
  ("MsgoutUbxMonMsgPpI2c", 0x20910196, Kt::U8),
  ("MsgoutUbxMonMsgPpSpi", 0x2091019a, Kt::U8),
  ("MsgoutUbxMonMsgPpUart1", 0x20910197, Kt::U8),
  ("MsgoutUbxMonMsgPpUart2", 0x20910198, Kt::U8),
  ("MsgoutUbxMonMsgPpUsb", 0x20910199, Kt::U8),
  ("MsgoutUbxMonRfI2c", 0x20910359, Kt::U8),
  ("MsgoutUbxMonRfSpi", 0x2091035d, Kt::U8),
  ("MsgoutUbxMonRfUart1", 0x2091035a, Kt::U8),
  ("MsgoutUbxMonRfUart2", 0x2091035b, Kt::U8),
  ("MsgoutUbxMonRfUsb", 0x2091035c, Kt::U8),
  ("MsgoutUbxMonRxbufI2c", 0x209101a0, Kt::U8),
  ("MsgoutUbxMonRxbufSpi", 0x209101a4, Kt::U8),
  ("MsgoutUbxMonRxbufUart1", 0x209101a1, Kt::U8),
  ("MsgoutUbxMonRxbufUart2", 0x209101a2, Kt::U8),
  ("MsgoutUbxMonRxbufUsb", 0x209101a3, Kt::U8),
  ("MsgoutUbxMonRxrI2c", 0x20910187, Kt::U8),
  ("MsgoutUbxMonRxrSpi", 0x2091018b, Kt::U8),
  ("MsgoutUbxMonRxrUart1", 0x20910188, Kt::U8),
  ("MsgoutUbxMonRxrUart2", 0x20910189, Kt::U8),
  ("MsgoutUbxMonRxrUsb", 0x2091018a, Kt::U8),
  ("MsgoutUbxMonTxbufI2c", 0x2091019b, Kt::U8),
  ("MsgoutUbxMonTxbufSpi", 0x2091019f, Kt::U8),
  ("MsgoutUbxMonTxbufUart1", 0x2091019c, Kt::U8),
  ("MsgoutUbxMonTxbufUart2", 0x2091019d, Kt::U8),
  ("MsgoutUbxMonTxbufUsb", 0x2091019e, Kt::U8),
  ("MsgoutUbxNavClockI2c", 0x20910065, Kt::U8),
  ("MsgoutUbxNavClockSpi", 0x20910069, Kt::U8),
  ("MsgoutUbxNavClockUart1", 0x20910066, Kt::U8),
  ("MsgoutUbxNavClockUart2", 0x20910067, Kt::U8),
  ("MsgoutUbxNavClockUsb", 0x20910068, Kt::U8),
  ("MsgoutUbxNavDopI2c", 0x20910038, Kt::U8),
  ("MsgoutUbxNavDopSpi", 0x2091003c, Kt::U8),
  ("MsgoutUbxNavDopUart1", 0x20910039, Kt::U8),
  ("MsgoutUbxNavDopUart2", 0x2091003a, Kt::U8),
  ("MsgoutUbxNavDopUsb", 0x2091003b, Kt::U8),
  ("MsgoutUbxNavEoeI2c", 0x2091015f, Kt::U8),
  ("MsgoutUbxNavEoeSpi", 0x20910163, Kt::U8),
  ("MsgoutUbxNavEoeUart1", 0x20910160, Kt::U8),
  ("MsgoutUbxNavEoeUart2", 0x20910161, Kt::U8),
  ("MsgoutUbxNavEoeUsb", 0x20910162, Kt::U8),
  ("MsgoutUbxNavGeofenceI2c", 0x209100a1, Kt::U8),
  ("MsgoutUbxNavGeofenceSpi", 0x209100a5, Kt::U8),
  ("MsgoutUbxNavGeofenceUart1", 0x209100a2, Kt::U8),
  ("MsgoutUbxNavGeofenceUart2", 0x209100a3, Kt::U8),
  ("MsgoutUbxNavGeofenceUsb", 0x209100a4, Kt::U8),
  ("MsgoutUbxNavHpPosEcefI2c", 0x2091002e, Kt::U8),
  ("MsgoutUbxNavHpPosEcefSpi", 0x20910032, Kt::U8),
  ("MsgoutUbxNavHpPosEcefUart1", 0x2091002f, Kt::U8),
  ("MsgoutUbxNavHpPosEcefUart2", 0x20910030, Kt::U8),
  ("MsgoutUbxNavHpPosEcefUsb", 0x20910031, Kt::U8),
  ("MsgoutUbxNavHpPosllhI2c", 0x20910033, Kt::U8),
  ("MsgoutUbxNavHpPosllhSpi", 0x20910037, Kt::U8),
  ("MsgoutUbxNavHpPosllhUart1", 0x20910034, Kt::U8),
  ("MsgoutUbxNavHpPosllhUart2", 0x20910035, Kt::U8),
  ("MsgoutUbxNavHpPosllhUsb", 0x20910036, Kt::U8),
  ("MsgoutUbxNavOdoI2c", 0x2091007e, Kt::U8),
  ("MsgoutUbxNavOdoSpi", 0x20910082, Kt::U8),
  ("MsgoutUbxNavOdoUart1", 0x2091007f, Kt::U8),
  ("MsgoutUbxNavOdoUart2", 0x20910080, Kt::U8),
  ("MsgoutUbxNavOdoUsb", 0x20910081, Kt::U8),
  ("MsgoutUbxNavOrbI2c", 0x20910010, Kt::U8),
  ("MsgoutUbxNavOrbSpi", 0x20910014, Kt::U8),
  ("MsgoutUbxNavOrbUart1", 0x20910011, Kt::U8),
  ("MsgoutUbxNavOrbUart2", 0x20910012, Kt::U8),
  ("MsgoutUbxNavOrbUsb", 0x20910013, Kt::U8),
  ("MsgoutUbxNavPosEcefI2c", 0x20910024, Kt::U8),
  ("MsgoutUbxNavPosEcefSpi", 0x20910028, Kt::U8),
  ("MsgoutUbxNavPosEcefUart1", 0x20910025, Kt::U8),
  ("MsgoutUbxNavPosEcefUart2", 0x20910026, Kt::U8),
  ("MsgoutUbxNavPosEcefUsb", 0x20910027, Kt::U8),
  ("MsgoutUbxNavPosLlhI2c", 0x20910029, Kt::U8),
  ("MsgoutUbxNavPosLlhSpi", 0x2091002d, Kt::U8),
  ("MsgoutUbxNavPosLlhUart1", 0x2091002a, Kt::U8),
  ("MsgoutUbxNavPosLlhUart2", 0x2091002b, Kt::U8),
  ("MsgoutUbxNavPosLlhUsb", 0x2091002c, Kt::U8),
  ("MsgoutUbxNavPvtI2c", 0x20910006, Kt::U8),
  ("MsgoutUbxNavPvtSpi", 0x2091000a, Kt::U8),
  ("MsgoutUbxNavPvtUart1", 0x20910007, Kt::U8),
  ("MsgoutUbxNavPvtUart2", 0x20910008, Kt::U8),
  ("MsgoutUbxNavPvtUsb", 0x20910009, Kt::U8),
  ("MsgoutUbxNavRelposnedI2c", 0x2091008d, Kt::U8),
  ("MsgoutUbxNavRelposnedSpi", 0x20910091, Kt::U8),
  ("MsgoutUbxNavRelposnedUart1", 0x2091008e, Kt::U8),
  ("MsgoutUbxNavRelposnedUart2", 0x2091008f, Kt::U8),
  ("MsgoutUbxNavRelposnedUsb", 0x20910090, Kt::U8),
  ("MsgoutUbxNavSatI2c", 0x20910015, Kt::U8),
  ("MsgoutUbxNavSatSpi", 0x20910019, Kt::U8),
  ("MsgoutUbxNavSatUart1", 0x20910016, Kt::U8),
  ("MsgoutUbxNavSatUart2", 0x20910017, Kt::U8),
  ("MsgoutUbxNavSatUsb", 0x20910018, Kt::U8),
  ("MsgoutUbxNavSigI2c", 0x20910345, Kt::U8),
  ("MsgoutUbxNavSigSpi", 0x20910349, Kt::U8),
  ("MsgoutUbxNavSigUart1", 0x20910346, Kt::U8),
  ("MsgoutUbxNavSigUart2", 0x20910347, Kt::U8),
  ("MsgoutUbxNavSigUsb", 0x20910348, Kt::U8),
  ("MsgoutUbxNavStatusI2c", 0x2091001a, Kt::U8),
  ("MsgoutUbxNavStatusSpi", 0x2091001e, Kt::U8),
  ("MsgoutUbxNavStatusUart1", 0x2091001b, Kt::U8),
  ("MsgoutUbxNavStatusUart2", 0x2091001c, Kt::U8),
  ("MsgoutUbxNavStatusUsb", 0x2091001d, Kt::U8),
  ("MsgoutUbxNavSvinI2c", 0x20910088, Kt::U8),
  ("MsgoutUbxNavSvinSpi", 0x2091008c, Kt::U8),
  ("MsgoutUbxNavSvinUart1", 0x20910089, Kt::U8),
  ("MsgoutUbxNavSvinUart2", 0x2091008a, Kt::U8),
  ("MsgoutUbxNavSvinUsb", 0x2091008b, Kt::U8),
  ("MsgoutUbxNavTimeBdsI2c", 0x20910051, Kt::U8),
  ("MsgoutUbxNavTimeBdsSpi", 0x20910055, Kt::U8),
  ("MsgoutUbxNavTimeBdsUart1", 0x20910052, Kt::U8),
  ("MsgoutUbxNavTimeBdsUart2", 0x20910053, Kt::U8),
  ("MsgoutUbxNavTimeBdsUsb", 0x20910054, Kt::U8),
  ("MsgoutUbxNavTimeGalI2c", 0x20910056, Kt::U8),
  ("MsgoutUbxNavTimeGalSpi", 0x2091005a, Kt::U8),
  ("MsgoutUbxNavTimeGalUart1", 0x20910057, Kt::U8),
  ("MsgoutUbxNavTimeGalUart2", 0x20910058, Kt::U8),
  ("MsgoutUbxNavTimeGalUsb", 0x20910059, Kt::U8),
  ("MsgoutUbxNavTimeGloI2c", 0x2091004c, Kt::U8),
  ("MsgoutUbxNavTimeGloSpi", 0x20910050, Kt::U8),
  ("MsgoutUbxNavTimeGloUart1", 0x2091004d, Kt::U8),
  ("MsgoutUbxNavTimeGloUart2", 0x2091004e, Kt::U8),
  ("MsgoutUbxNavTimeGloUsb", 0x2091004f, Kt::U8),
  ("MsgoutUbxNavTimeGpsI2c", 0x20910047, Kt::U8),
  ("MsgoutUbxNavTimeGpsSpi", 0x2091004b, Kt::U8),
  ("MsgoutUbxNavTimeGpsUart1", 0x20910048, Kt::U8),
  ("MsgoutUbxNavTimeGpsUart2", 0x20910049, Kt::U8),
  ("MsgoutUbxNavTimeGpsUsb", 0x2091004a, Kt::U8),
  ("MsgoutUbxNavTimeLsI2c", 0x20910060, Kt::U8),
  ("MsgoutUbxNavTimeLsSpi", 0x20910064, Kt::U8),
  ("MsgoutUbxNavTimeLsUart1", 0x20910061, Kt::U8),
  ("MsgoutUbxNavTimeLsUart2", 0x20910062, Kt::U8),
  ("MsgoutUbxNavTimeLsUsb", 0x20910063, Kt::U8),
  ("MsgoutUbxNavTimeUtcI2c", 0x2091005b, Kt::U8),
  ("MsgoutUbxNavTimeUtcSpi", 0x2091005f, Kt::U8),
  ("MsgoutUbxNavTimeUtcUart1", 0x2091005c, Kt::U8),
  ("MsgoutUbxNavTimeUtcUart2", 0x2091005d, Kt::U8),
  ("MsgoutUbxNavTimeUtcUsb", 0x2091005e, Kt::U8),
  ("MsgoutUbxNavVelEcefI2c", 0x2091003d, Kt::U8),
  ("MsgoutUbxNavVelEcefSpi", 0x20910041, Kt::U8),
  ("MsgoutUbxNavVelEcefUart1", 0x2091003e, Kt::U8),
  ("MsgoutUbxNavVelEcefUart2", 0x2091003f, Kt::U8),
  ("MsgoutUbxNavVelEcefUsb", 0x20910040, Kt::U8),
  ("MsgoutUbxNavVelNedI2c", 0x20910042, Kt::U8),
  ("MsgoutUbxNavVelNedSpi", 0x20910046, Kt::U8),
  ("MsgoutUbxNavVelNedUart1", 0x20910043, Kt::U8),
  ("MsgoutUbxNavVelNedUart2", 0x20910044, Kt::U8),
  ("MsgoutUbxNavVelNedUsb", 0x20910045, Kt::U8),
  ("MsgoutUbxRxmMeasxI2c", 0x20910204, Kt::U8),
  ("MsgoutUbxRxmMeasxSpi", 0x20910208, Kt::U8),
  ("MsgoutUbxRxmMeasxUart1", 0x20910205, Kt::U8),
  ("MsgoutUbxRxmMeasxUart2", 0x20910206, Kt::U8),
  ("MsgoutUbxRxmMeasxUsb", 0x20910207, Kt::U8),
  ("MsgoutUbxRxmRawxI2c", 0x209102a4, Kt::U8),
  ("MsgoutUbxRxmRawxSpi", 0x209102a8, Kt::U8),
  ("MsgoutUbxRxmRawxUart1", 0x209102a5, Kt::U8),
  ("MsgoutUbxRxmRawxUart2", 0x209102a6, Kt::U8),
  ("MsgoutUbxRxmRawxUsb", 0x209102a7, Kt::U8),
  ("MsgoutUbxRxmRlmI2c", 0x2091025e, Kt::U8),
  ("MsgoutUbxRxmRlmSpi", 0x20910262, Kt::U8),
  ("MsgoutUbxRxmRlmUart1", 0x2091025f, Kt::U8),
  ("MsgoutUbxRxmRlmUart2", 0x20910260, Kt::U8),
  ("MsgoutUbxRxmRlmUsb", 0x20910261, Kt::U8),
  ("MsgoutUbxRxmRtcmI2c", 0x20910268, Kt::U8),
  ("MsgoutUbxRxmRtcmSpi", 0x2091026c, Kt::U8),
  ("MsgoutUbxRxmRtcmUart1", 0x20910269, Kt::U8),
  ("MsgoutUbxRxmRtcmUart2", 0x2091026a, Kt::U8),
  ("MsgoutUbxRxmRtcmUsb", 0x2091026b, Kt::U8),
  ("MsgoutUbxRxmSfrbxI2c", 0x20910231, Kt::U8),
  ("MsgoutUbxRxmSfrbxSpi", 0x20910235, Kt::U8),
  ("MsgoutUbxRxmSfrbxUart1", 0x20910232, Kt::U8),
  ("MsgoutUbxRxmSfrbxUart2", 0x20910233, Kt::U8),
  ("MsgoutUbxRxmSfrbxUsb", 0x20910234, Kt::U8),
  ("MsgoutUbxTimTm2I2c", 0x20910178, Kt::U8),
  ("MsgoutUbxTimTm2Spi", 0x2091017c, Kt::U8),
  ("MsgoutUbxTimTm2Uart1", 0x20910179, Kt::U8),
  ("MsgoutUbxTimTm2Uart2", 0x2091017a, Kt::U8),
  ("MsgoutUbxTimTm2Usb", 0x2091017b, Kt::U8),
  ("MsgoutUbxTimTpI2c", 0x2091017d, Kt::U8),
  ("MsgoutUbxTimTpSpi", 0x20910181, Kt::U8),
  ("MsgoutUbxTimTpUart1", 0x2091017e, Kt::U8),
  ("MsgoutUbxTimTpUart2", 0x2091017f, Kt::U8),
  ("MsgoutUbxTimTpUsb", 0x20910180, Kt::U8),
  ("MsgoutUbxTimVrfyI2c", 0x20910092, Kt::U8),
  ("MsgoutUbxTimVrfySpi", 0x20910096, Kt::U8),
  ("MsgoutUbxTimVrfyUart1", 0x20910093, Kt::U8),
  ("MsgoutUbxTimVrfyUart2", 0x20910094, Kt::U8),
  ("MsgoutUbxTimVrfyUsb", 0x20910095, Kt::U8),
  ("SignalGpsEna", 0x1031001f, Kt::Bool),
  ("SignalGpsL1caEna", 0x10310001, Kt::Bool),
  ("SignalGpsL2cEna", 0x10310003, Kt::Bool),
  ("SignalGalEna", 0x10310021, Kt::Bool),
  ("SignalGalE1Ena", 0x10310007, Kt::Bool),
  ("SignalGalE5bEna", 0x1031000a, Kt::Bool),
  ("SignalBdsEna", 0x10310022, Kt::Bool),
  ("SignalBdsB1Ena", 0x1031000d, Kt::Bool),
  ("SignalBdsB2Ena", 0x1031000e, Kt::Bool),
  ("SignalQzssEna", 0x10310024, Kt::Bool),
  ("SignalQzssL1caEna", 0x10310012, Kt::Bool),
  ("SignalQzssL2cEna", 0x10310015, Kt::Bool),
  ("SignalGloEna", 0x10310025, Kt::Bool),
  ("SignalGloL1Ena", 0x10310018, Kt::Bool),
  ("SignalGLoL2Ena", 0x1031001a, Kt::Bool),
  ("TpPulseDef", 0x20050023, Kt::TpPulse),
  ("TpPulseLengthDef", 0x20050030, Kt::TpLen),
  ("TpAntCableDelay", 0x30050001, Kt::I16),
  ("TpPeriodTp1", 0x40050002, Kt::U32),
  ("TpPeriodLockTp1", 0x40050003, Kt::U32),
  ("TpFreqTp1", 0x40050024, Kt::U32),
  ("TpFreqLockTp1", 0x40050025, Kt::U32),
  ("TpLenTp1", 0x40050004, Kt::U32),
  ("TpLenLockTp1", 0x40050005, Kt::U32),
  ("TpTp1Ena", 0x10050007, Kt::Bool),
  ("TpSyncGnssTp1", 0x10050008, Kt::Bool),
  ("TpUseLockedTp1", 0x10050009, Kt::Bool),
  ("TpAlignToTowTp1", 0x1005000a, Kt::Bool),
  ("TpPolTp1", 0x1005000b, Kt::Bool),
  ("TpTimegridTp1", 0x2005000c, Kt::Align),
];
pub fn make(i: usize, raw: u64) -> CfgVal { match i {
  0 => CfgVal::Uart1Baudrate(<u32 as Raw>::from_raw(raw)),
  1 => CfgVal::Uart1StopBits(<StopBits as Raw>::from_raw(raw)),
  2 => CfgVal::Uart1DataBits(<DataBits as Raw>::from_raw(raw)),
  3 => CfgVal::Uart1Parity(<Parity as Raw>::from_raw(raw)),
  4 => CfgVal::Uart1Enabled(<bool as Raw>::from_raw(raw)),
  5 => CfgVal::Uart1InProtUbx(<bool as Raw>::from_raw(raw)),
  6 => CfgVal::Uart1InProtNmea(<bool as Raw>::from_raw(raw)),
  7 => CfgVal::Uart1InProtRtcm3x(<bool as Raw>::from_raw(raw)),
  8 => CfgVal::Uart1OutProtUbx(<bool as Raw>::from_raw(raw)),
  9 => CfgVal::Uart1OutProtNmea(<bool as Raw>::from_raw(raw)),
  10 => CfgVal::Uart1OutProtRtcm3x(<bool as Raw>::from_raw(raw)),
  11 => CfgVal::Uart2Baudrate(<u32 as Raw>::from_raw(raw)),
  12 => CfgVal::Uart2StopBits(<StopBits as Raw>::from_raw(raw)),
  13 => CfgVal::Uart2DataBits(<DataBits as Raw>::from_raw(raw)),
  14 => CfgVal::Uart2Parity(<Parity as Raw>::from_raw(raw)),
  15 => CfgVal::Uart2Enabled(<bool as Raw>::from_raw(raw)),
  16 => CfgVal::Uart2Remap(<bool as Raw>::from_raw(raw)),
  17 => CfgVal::Uart2InProtUbx(<bool as Raw>::from_raw(raw)),
  18 => CfgVal::Uart2InProtNmea(<bool as Raw>::from_raw(raw)),
  19 => CfgVal::Uart2InProtRtcm3x(<bool as Raw>::from_raw(raw)),
  20 => CfgVal::Uart2OutProtUbx(<bool as Raw>::from_raw(raw)),
  21 => CfgVal::Uart2OutProtNmea(<bool as Raw>::from_raw(raw)),
  22 => CfgVal::Uart2OutProtRtcm3x(<bool as Raw>::from_raw(raw)),
  23 => CfgVal::UsbEnabled(<bool as Raw>::from_raw(raw)),
  24 => CfgVal::UsbSelfpow(<bool as Raw>::from_raw(raw)),
  25 => CfgVal::UsbVendorId(<u16 as Raw>::from_raw(raw)),
  26 => CfgVal::UsbProductId(<u16 as Raw>::from_raw(raw)),
  27 => CfgVal::UsbPower(<u16 as Raw>::from_raw(raw)),
  28 => CfgVal::UsbVendorStr0(<u64 as Raw>::from_raw(raw)),
  29 => CfgVal::UsbVendorStr1(<u64 as Raw>::from_raw(raw)),
  30 => CfgVal::UsbVendorStr2(<u64 as Raw>::from_raw(raw)),
  31 => CfgVal::UsbVendorStr3(<u64 as Raw>::from_raw(raw)),
  32 => CfgVal::UsbProductStr0(<u64 as Raw>::from_raw(raw)),
  33 => CfgVal::UsbProductStr1(<u64 as Raw>::from_raw(raw)),
  34 => CfgVal::UsbProductStr2(<u64 as Raw>::from_raw(raw)),
  35 => CfgVal::UsbProductStr3(<u64 as Raw>::from_raw(raw)),
  36 => CfgVal::UsbSerialNoStr0(<u64 as Raw>::from_raw(raw)),
  37 => CfgVal::UsbSerialNoStr1(<u64 as Raw>::from_raw(raw)),
  38 => CfgVal::UsbSerialNoStr2(<u64 as Raw>::from_raw(raw)),
  39 => CfgVal::UsbSerialNoStr3(<u64 as Raw>::from_raw(raw)),
  40 => CfgVal::UsbinprotUbx(<bool as Raw>::from_raw(raw)),
  41 => CfgVal::UsbinprotNmea(<bool as Raw>::from_raw(raw)),
  42 => CfgVal::UsbinprotRtcm3X(<bool as Raw>::from_raw(raw)),
  43 => CfgVal::UsbOutProtUbx(<bool as Raw>::from_raw(raw)),
  44 => CfgVal::UsbOutProtNmea(<bool as Raw>::from_raw(raw)),
  45 => CfgVal::UsbOutProtRtcm3x(<bool as Raw>::from_raw(raw)),
  46 => CfgVal::InfmsgUbxI2c(<CfgInfMask as Raw>::from_raw(raw)),
  47 => CfgVal::InfmsgUbxUart1(<CfgInfMask as Raw>::from_raw(raw)),
  48 => CfgVal::InfmsgUbxUart2(<CfgInfMask as Raw>::from_raw(raw)),
  49 => CfgVal::InfmsgUbxUsb(<CfgInfMask as Raw>::from_raw(raw)),
  50 => CfgVal::InfmsgUbxSpi(<CfgInfMask as Raw>::from_raw(raw)),
  51 => CfgVal::InfmsgNmeaI2c(<CfgInfMask as Raw>::from_raw(raw)),
  52 => CfgVal::InfmsgNmeaUart1(<CfgInfMask as Raw>::from_raw(raw)),
  53 => CfgVal::InfmsgNmeaUart2(<CfgInfMask as Raw>::from_raw(raw)),
  54 => CfgVal::InfmsgNmeaUsb(<CfgInfMask as Raw>::from_raw(raw)),
  55 => CfgVal::InfmsgNmeaSpi(<CfgInfMask as Raw>::from_raw(raw)),
  56 => CfgVal::RateMeas(<u16 as Raw>::from_raw(raw)),
  57 => CfgVal::RateNav(<u16 as Raw>::from_raw(raw)),
  58 => CfgVal::RateTimeref(<AlignmentToReferenceTime as Raw>::from_raw(raw)),
  59 => CfgVal::MsgoutNmeaIdDtmI2c(<u8 as Raw>::from_raw(raw)),
  60 => CfgVal::MsgoutNmeaIdDtmSpi(<u8 as Raw>::from_raw(raw)),
  61 => CfgVal::MsgoutNmeaIdDtmUart1(<u8 as Raw>::from_raw(raw)),
  62 => CfgVal::MsgoutNmeaIdDtmUart2(<u8 as Raw>::from_raw(raw)),
  63 => CfgVal::MsgoutNmeaIdDtmUsb(<u8 as Raw>::from_raw(raw)),
  64 => CfgVal::MsgoutNmeaIdGbsI2c(<u8 as Raw>::from_raw(raw)),
  65 => CfgVal::MsgoutNmeaIdGbsSpi(<u8 as Raw>::from_raw(raw)),
  66 => CfgVal::MsgoutNmeaIdGbsUart1(<u8 as Raw>::from_raw(raw)),
  67 => CfgVal::MsgoutNmeaIdGbsUart2(<u8 as Raw>::from_raw(raw)),
  68 => CfgVal::MsgoutNmeaIdGbsUsb(<u8 as Raw>::from_raw(raw)),
  69 => CfgVal::MsgoutNmeaIdGgaI2c(<u8 as Raw>::from_raw(raw)),
  70 => CfgVal::MsgoutNmeaIdGgaSpi(<u8 as Raw>::from_raw(raw)),
  71 => CfgVal::MsgoutNmeaIdGgaUart1(<u8 as Raw>::from_raw(raw)),
  72 => CfgVal::MsgoutNmeaIdGgaUart2(<u8 as Raw>::from_raw(raw)),
  73 => CfgVal::MsgoutNmeaIdGgaUsb(<u8 as Raw>::from_raw(raw)),
  74 => CfgVal::MsgoutNmeaIdGllI2c(<u8 as Raw>::from_raw(raw)),
  75 => CfgVal::MsgoutNmeaIdGllSpi(<u8 as Raw>::from_raw(raw)),
  76 => CfgVal::MsgoutNmeaIdGllUart1(<u8 as Raw>::from_raw(raw)),
  77 => CfgVal::MsgoutNmeaIdGllUart2(<u8 as Raw>::from_raw(raw)),
  78 => CfgVal::MsgoutNmeaIdGllUsb(<u8 as Raw>::from_raw(raw)),
  79 => CfgVal::MsgoutNmeaIdGnsI2c(<u8 as Raw>::from_raw(raw)),
  80 => CfgVal::MsgoutNmeaIdGnsSpi(<u8 as Raw>::from_raw(raw)),
  81 => CfgVal::MsgoutNmeaIdGnsUart1(<u8 as Raw>::from_raw(raw)),
  82 => CfgVal::MsgoutNmeaIdGnsUart2(<u8 as Raw>::from_raw(raw)),
  83 => CfgVal::MsgoutNmeaIdGnsUsb(<u8 as Raw>::from_raw(raw)),
  84 => CfgVal::MsgoutNmeaIdGrsI2c(<u8 as Raw>::from_raw(raw)),
  85 => CfgVal::MsgoutNmeaIdGrsSpi(<u8 as Raw>::from_raw(raw)),
  86 => CfgVal::MsgoutNmeaIdGrsUart1(<u8 as Raw>::from_raw(raw)),
  87 => CfgVal::MsgoutNmeaIdGrsUart2(<u8 as Raw>::from_raw(raw)),
  88 => CfgVal::MsgoutNmeaIdGrsUsb(<u8 as Raw>::from_raw(raw)),
  89 => CfgVal::MsgoutNmeaIdGsaI2c(<u8 as Raw>::from_raw(raw)),
  90 => CfgVal::MsgoutNmeaIdGsaSpi(<u8 as Raw>::from_raw(raw)),
  91 => CfgVal::MsgoutNmeaIdGsaUart1(<u8 as Raw>::from_raw(raw)),
  92 => CfgVal::MsgoutNmeaIdGsaUart2(<u8 as Raw>::from_raw(raw)),
  93 => CfgVal::MsgoutNmeaIdGsaUsb(<u8 as Raw>::from_raw(raw)),
  94 => CfgVal::MsgoutNmeaIdGstI2c(<u8 as Raw>::from_raw(raw)),
  95 => CfgVal::MsgoutNmeaIdGstSpi(<u8 as Raw>::from_raw(raw)),
  96 => CfgVal::MsgoutNmeaIdGstUart1(<u8 as Raw>::from_raw(raw)),
  97 => CfgVal::MsgoutNmeaIdGstUart2(<u8 as Raw>::from_raw(raw)),
  98 => CfgVal::MsgoutNmeaIdGstUsb(<u8 as Raw>::from_raw(raw)),
  99 => CfgVal::MsgoutNmeaIdGsvI2c(<u8 as Raw>::from_raw(raw)),
  100 => CfgVal::MsgoutNmeaIdGsvSpi(<u8 as Raw>::from_raw(raw)),
  101 => CfgVal::MsgoutNmeaIdGsvUart1(<u8 as Raw>::from_raw(raw)),
  102 => CfgVal::MsgoutNmeaIdGsvUart2(<u8 as Raw>::from_raw(raw)),
  103 => CfgVal::MsgoutNmeaIdGsvUsb(<u8 as Raw>::from_raw(raw)),
  104 => CfgVal::MsgoutNmeaIdRmcI2c(<u8 as Raw>::from_raw(raw)),
  105 => CfgVal::MsgoutNmeaIdRmcSpi(<u8 as Raw>::from_raw(raw)),
  106 => CfgVal::MsgoutNmeaIdRmcUart1(<u8 as Raw>::from_raw(raw)),
  107 => CfgVal::MsgoutNmeaIdRmcUart2(<u8 as Raw>::from_raw(raw)),
  108 => CfgVal::MsgoutNmeaIdRmcUsb(<u8 as Raw>::from_raw(raw)),
  109 => CfgVal::MsgoutNmeaIdVlwI2c(<u8 as Raw>::from_raw(raw)),
  110 => CfgVal::MsgoutNmeaIdVlwSpi(<u8 as Raw>::from_raw(raw)),
  111 => CfgVal::MsgoutNmeaIdVlwUart1(<u8 as Raw>::from_raw(raw)),
  112 => CfgVal::MsgoutNmeaIdVlwUart2(<u8 as Raw>::from_raw(raw)),
  113 => CfgVal::MsgoutNmeaIdVlwUsb(<u8 as Raw>::from_raw(raw)),
  114 => CfgVal::MsgoutNmeaIdVtgI2c(<u8 as Raw>::from_raw(raw)),
  115 => CfgVal::MsgoutNmeaIdVtgSpi(<u8 as Raw>::from_raw(raw)),
  116 => CfgVal::MsgoutNmeaIdVtgUart1(<u8 as Raw>::from_raw(raw)),
  117 => CfgVal::MsgoutNmeaIdVtgUart2(<u8 as Raw>::from_raw(raw)),
  118 => CfgVal::MsgoutNmeaIdVtgUsb(<u8 as Raw>::from_raw(raw)),
  119 => CfgVal::MsgoutNmeaIdZdaI2c(<u8 as Raw>::from_raw(raw)),
  120 => CfgVal::MsgoutNmeaIdZdaSpi(<u8 as Raw>::from_raw(raw)),
  121 => CfgVal::MsgoutNmeaIdZdaUart1(<u8 as Raw>::from_raw(raw)),
  122 => CfgVal::MsgoutNmeaIdZdaUart2(<u8 as Raw>::from_raw(raw)),
  123 => CfgVal::MsgoutNmeaIdZdaUsb(<u8 as Raw>::from_raw(raw)),
  124 => CfgVal::MsgoutPubxIdPolypI2c(<u8 as Raw>::from_raw(raw)),
  125 => CfgVal::MsgoutPubxIdPolypSpi(<u8 as Raw>::from_raw(raw)),
  126 => CfgVal::MsgoutPubxIdPolypUart1(<u8 as Raw>::from_raw(raw)),
  127 => CfgVal::MsgoutPubxIdPolypUart2(<u8 as Raw>::from_raw(raw)),
  128 => CfgVal::MsgoutPubxIdPolypUsb(<u8 as Raw>::from_raw(raw)),
  129 => CfgVal::MsgoutPubxIdPolysI2c(<u8 as Raw>::from_raw(raw)),
  130 => CfgVal::MsgoutPubxIdPolysSpi(<u8 as Raw>::from_raw(raw)),
  131 => CfgVal::MsgoutPubxIdPolysUart1(<u8 as Raw>::from_raw(raw)),
  132 => CfgVal::MsgoutPubxIdPolysUart2(<u8 as Raw>::from_raw(raw)),
  133 => CfgVal::MsgoutPubxIdPolysUsb(<u8 as Raw>::from_raw(raw)),
  134 => CfgVal::MsgoutPubxIdPolytI2c(<u8 as Raw>::from_raw(raw)),
  135 => CfgVal::MsgoutPubxIdPolytSpi(<u8 as Raw>::from_raw(raw)),
  136 => CfgVal::MsgoutPubxIdPolytUart1(<u8 as Raw>::from_raw(raw)),
  137 => CfgVal::MsgoutPubxIdPolytUart2(<u8 as Raw>::from_raw(raw)),
  138 => CfgVal::MsgoutPubxIdPolytUsb(<u8 as Raw>::from_raw(raw)),
  139 => CfgVal::MsgoutRtcm3xType1005I2c(<u8 as Raw>::from_raw(raw)),
  140 => CfgVal::MsgoutRtcm3xType1005Spi(<u8 as Raw>::from_raw(raw)),
  141 => CfgVal::MsgoutRtcm3xType1005Uart1(<u8 as Raw>::from_raw(raw)),
  142 => CfgVal::MsgoutRtcm3xType1005Uart2(<u8 as Raw>::from_raw(raw)),
  143 => CfgVal::MsgoutRtcm3xType1005Usb(<u8 as Raw>::from_raw(raw)),
  144 => CfgVal::MsgoutRtcm3xType1074I2c(<u8 as Raw>::from_raw(raw)),
  145 => CfgVal::MsgoutRtcm3xType1074Spi(<u8 as Raw>::from_raw(raw)),
  146 => CfgVal::MsgoutRtcm3xType1074Uart1(<u8 as Raw>::from_raw(raw)),
  147 => CfgVal::MsgoutRtcm3xType1074Uart2(<u8 as Raw>::from_raw(raw)),
  148 => CfgVal::MsgoutRtcm3xType1074Usb(<u8 as Raw>::from_raw(raw)),
  149 => CfgVal::MsgoutRtcm3xType1077I2c(<u8 as Raw>::from_raw(raw)),
  150 => CfgVal::MsgoutRtcm3xType1077Spi(<u8 as Raw>::from_raw(raw)),
  151 => CfgVal::MsgoutRtcm3xType1077Uart1(<u8 as Raw>::from_raw(raw)),
  152 => CfgVal::MsgoutRtcm3xType1077Uart2(<u8 as Raw>::from_raw(raw)),
  153 => CfgVal::MsgoutRtcm3xType1077Usb(<u8 as Raw>::from_raw(raw)),
  154 => CfgVal::MsgoutRtcm3xType1084I2c(<u8 as Raw>::from_raw(raw)),
  155 => CfgVal::MsgoutRtcm3xType1084Spi(<u8 as Raw>::from_raw(raw)),
  156 => CfgVal::MsgoutRtcm3xType1084Uart1(<u8 as Raw>::from_raw(raw)),
  157 => CfgVal::MsgoutRtcm3xType1084Uart2(<u8 as Raw>::from_raw(raw)),
  158 => CfgVal::MsgoutRtcm3xType1084Usb(<u8 as Raw>::from_raw(raw)),
  159 => CfgVal::MsgoutRtcm3xType1087I2c(<u8 as Raw>::from_raw(raw)),
  160 => CfgVal::MsgoutRtcm3xType1087Spi(<u8 as Raw>::from_raw(raw)),
  161 => CfgVal::MsgoutRtcm3xType1087Uart1(<u8 as Raw>::from_raw(raw)),
  162 => CfgVal::MsgoutRtcm3xType1087Uart2(<u8 as Raw>::from_raw(raw)),
  163 => CfgVal::MsgoutRtcm3xType1087Usb(<u8 as Raw>::from_raw(raw)),
  164 => CfgVal::MsgoutRtcm3xType1094I2c(<u8 as Raw>::from_raw(raw)),
  165 => CfgVal::MsgoutRtcm3xType1094Spi(<u8 as Raw>::from_raw(raw)),
  166 => CfgVal::MsgoutRtcm3xType1094Uart1(<u8 as Raw>::from_raw(raw)),
  167 => CfgVal::MsgoutRtcm3xType1094Uart2(<u8 as Raw>::from_raw(raw)),
  168 => CfgVal::MsgoutRtcm3xType1094Usb(<u8 as Raw>::from_raw(raw)),
  169 => CfgVal::MsgoutRtcm3xType1097I2c(<u8 as Raw>::from_raw(raw)),
  170 => CfgVal::MsgoutRtcm3xType1097Spi(<u8 as Raw>::from_raw(raw)),
  171 => CfgVal::MsgoutRtcm3xType1097Uart1(<u8 as Raw>::from_raw(raw)),
  172 => CfgVal::MsgoutRtcm3xType1097Uart2(<u8 as Raw>::from_raw(raw)),
  173 => CfgVal::MsgoutRtcm3xType1097Usb(<u8 as Raw>::from_raw(raw)),
  174 => CfgVal::MsgoutRtcm3xType1124I2c(<u8 as Raw>::from_raw(raw)),
  175 => CfgVal::MsgoutRtcm3xType1124Spi(<u8 as Raw>::from_raw(raw)),
  176 => CfgVal::MsgoutRtcm3xType1124Uart1(<u8 as Raw>::from_raw(raw)),
  177 => CfgVal::MsgoutRtcm3xType1124Uart2(<u8 as Raw>::from_raw(raw)),
  178 => CfgVal::MsgoutRtcm3xType1124Usb(<u8 as Raw>::from_raw(raw)),
  179 => CfgVal::MsgoutRtcm3xType1127I2c(<u8 as Raw>::from_raw(raw)),
  180 => CfgVal::MsgoutRtcm3xType1127Spi(<u8 as Raw>::from_raw(raw)),
  181 => CfgVal::MsgoutRtcm3xType1127Uart1(<u8 as Raw>::from_raw(raw)),
  182 => CfgVal::MsgoutRtcm3xType1127Uart2(<u8 as Raw>::from_raw(raw)),
  183 => CfgVal::MsgoutRtcm3xType1127Usb(<u8 as Raw>::from_raw(raw)),
  184 => CfgVal::MsgoutRtcm3xType1230I2c(<u8 as Raw>::from_raw(raw)),
  185 => CfgVal::MsgoutRtcm3xType1230Spi(<u8 as Raw>::from_raw(raw)),
  186 => CfgVal::MsgoutRtcm3xType1230Uart1(<u8 as Raw>::from_raw(raw)),
  187 => CfgVal::MsgoutRtcm3xType1230Uart2(<u8 as Raw>::from_raw(raw)),
  188 => CfgVal::MsgoutRtcm3xType1230Usb(<u8 as Raw>::from_raw(raw)),
  189 => CfgVal::MsgoutUbxLogInfoI2c(<u8 as Raw>::from_raw(raw)),
  190 => CfgVal::MsgoutUbxLogInfoSpi(<u8 as Raw>::from_raw(raw)),
  191 => CfgVal::MsgoutUbxLogInfoUart1(<u8 as Raw>::from_raw(raw)),
  192 => CfgVal::MsgoutUbxLogInfoUart2(<u8 as Raw>::from_raw(raw)),
  193 => CfgVal::MsgoutUbxLogInfoUsb(<u8 as Raw>::from_raw(raw)),
  194 => CfgVal::MsgoutUbxMonCommsI2c(<u8 as Raw>::from_raw(raw)),
  195 => CfgVal::MsgoutUbxMonCommsSpi(<u8 as Raw>::from_raw(raw)),
  196 => CfgVal::MsgoutUbxMonCommsUart1(<u8 as Raw>::from_raw(raw)),
  197 => CfgVal::MsgoutUbxMonCommsUart2(<u8 as Raw>::from_raw(raw)),
  198 => CfgVal::MsgoutUbxMonCommsUsb(<u8 as Raw>::from_raw(raw)),
  199 => CfgVal::MsgoutUbxMonHw2I2c(<u8 as Raw>::from_raw(raw)),
  200 => CfgVal::MsgoutUbxMonHw2Spi(<u8 as Raw>::from_raw(raw)),
  201 => CfgVal::MsgoutUbxMonHw2Uart1(<u8 as Raw>::from_raw(raw)),
  202 => CfgVal::MsgoutUbxMonHw2Uart2(<u8 as Raw>::from_raw(raw)),
  203 => CfgVal::MsgoutUbxMonHw2Usb(<u8 as Raw>::from_raw(raw)),
  204 => CfgVal::MsgoutUbxMonHw3I2c(<u8 as Raw>::from_raw(raw)),
  205 => CfgVal::MsgoutUbxMonHw3Spi(<u8 as Raw>::from_raw(raw)),
  206 => CfgVal::MsgoutUbxMonHw3Uart1(<u8 as Raw>::from_raw(raw)),
  207 => CfgVal::MsgoutUbxMonHw3Uart2(<u8 as Raw>::from_raw(raw)),
  208 => CfgVal::MsgoutUbxMonHw3Usb(<u8 as Raw>::from_raw(raw)),
  209 => CfgVal::MsgoutUbxMonHwI2c(<u8 as Raw>::from_raw(raw)),
  210 => CfgVal::MsgoutUbxMonHwSpi(<u8 as Raw>::from_raw(raw)),
  211 => CfgVal::MsgoutUbxMonHwUart1(<u8 as Raw>::from_raw(raw)),
  212 => CfgVal::MsgoutUbxMonHwUart2(<u8 as Raw>::from_raw(raw)),
  213 => CfgVal::MsgoutUbxMonHwUsb(<u8 as Raw>::from_raw(raw)),
  214 => CfgVal::MsgoutUbxMonIoI2c(<u8 as Raw>::from_raw(raw)),
  215 => CfgVal::MsgoutUbxMonIoSpi(<u8 as Raw>::from_raw(raw)),
  216 => CfgVal::MsgoutUbxMonIoUart1(<u8 as Raw>::from_raw(raw)),
  217 => CfgVal::MsgoutUbxMonIoUart2(<u8 as Raw>::from_raw(raw)),
  218 => CfgVal::MsgoutUbxMonIoUsb(<u8 as Raw>::from_raw(raw)),
  219 => CfgVal::MsgoutUbxMonMsgPpI2c(<u8 as Raw>::from_raw(raw)),
  220 => CfgVal::MsgoutUbxMonMsgPpSpi(<u8 as Raw>::from_raw(raw)),
  221 => CfgVal::MsgoutUbxMonMsgPpUart1(<u8 as Raw>::from_raw(raw)),
  222 => CfgVal::MsgoutUbxMonMsgPpUart2(<u8 as Raw>::from_raw(raw)),
  223 => CfgVal::MsgoutUbxMonMsgPpUsb(<u8 as Raw>::from_raw(raw)),
  224 => CfgVal::MsgoutUbxMonRfI2c(<u8 as Raw>::from_raw(raw)),
  225 => CfgVal::MsgoutUbxMonRfSpi(<u8 as Raw>::from_raw(raw)),
  226 => CfgVal::MsgoutUbxMonRfUart1(<u8 as Raw>::from_raw(raw)),
  227 => CfgVal::MsgoutUbxMonRfUart2(<u8 as Raw>::from_raw(raw)),
  228 => CfgVal::MsgoutUbxMonRfUsb(<u8 as Raw>::from_raw(raw)),
  229 => CfgVal::MsgoutUbxMonRxbufI2c(<u8 as Raw>::from_raw(raw)),
  230 => CfgVal::MsgoutUbxMonRxbufSpi(<u8 as Raw>::from_raw(raw)),
  231 => CfgVal::MsgoutUbxMonRxbufUart1(<u8 as Raw>::from_raw(raw)),
  232 => CfgVal::MsgoutUbxMonRxbufUart2(<u8 as Raw>::from_raw(raw)),
  233 => CfgVal::MsgoutUbxMonRxbufUsb(<u8 as Raw>::from_raw(raw)),
  234 => CfgVal::MsgoutUbxMonRxrI2c(<u8 as Raw>::from_raw(raw)),
  235 => CfgVal::MsgoutUbxMonRxrSpi(<u8 as Raw>::from_raw(raw)),
  236 => CfgVal::MsgoutUbxMonRxrUart1(<u8 as Raw>::from_raw(raw)),
  237 => CfgVal::MsgoutUbxMonRxrUart2(<u8 as Raw>::from_raw(raw)),
  238 => CfgVal::MsgoutUbxMonRxrUsb(<u8 as Raw>::from_raw(raw)),
  239 => CfgVal::MsgoutUbxMonTxbufI2c(<u8 as Raw>::from_raw(raw)),
  240 => CfgVal::MsgoutUbxMonTxbufSpi(<u8 as Raw>::from_raw(raw)),
  241 => CfgVal::MsgoutUbxMonTxbufUart1(<u8 as Raw>::from_raw(raw)),
  242 => CfgVal::MsgoutUbxMonTxbufUart2(<u8 as Raw>::from_raw(raw)),
  243 => CfgVal::MsgoutUbxMonTxbufUsb(<u8 as Raw>::from_raw(raw)),
  244 => CfgVal::MsgoutUbxNavClockI2c(<u8 as Raw>::from_raw(raw)),
  245 => CfgVal::MsgoutUbxNavClockSpi(<u8 as Raw>::from_raw(raw)),
  246 => CfgVal::MsgoutUbxNavClockUart1(<u8 as Raw>::from_raw(raw)),
  247 => CfgVal::MsgoutUbxNavClockUart2(<u8 as Raw>::from_raw(raw)),
  248 => CfgVal::MsgoutUbxNavClockUsb(<u8 as Raw>::from_raw(raw)),
  249 => CfgVal::MsgoutUbxNavDopI2c(<u8 as Raw>::from_raw(raw)),
  250 => CfgVal::MsgoutUbxNavDopSpi(<u8 as Raw>::from_raw(raw)),
  251 => CfgVal::MsgoutUbxNavDopUart1(<u8 as Raw>::from_raw(raw)),
  252 => CfgVal::MsgoutUbxNavDopUart2(<u8 as Raw>::from_raw(raw)),
  253 => CfgVal::MsgoutUbxNavDopUsb(<u8 as Raw>::from_raw(raw)),
  254 => CfgVal::MsgoutUbxNavEoeI2c(<u8 as Raw>::from_raw(raw)),
  255 => CfgVal::MsgoutUbxNavEoeSpi(<u8 as Raw>::from_raw(raw)),
  256 => CfgVal::MsgoutUbxNavEoeUart1(<u8 as Raw>::from_raw(raw)),
  257 => CfgVal::MsgoutUbxNavEoeUart2(<u8 as Raw>::from_raw(raw)),
  258 => CfgVal::MsgoutUbxNavEoeUsb(<u8 as Raw>::from_raw(raw)),
  259 => CfgVal::MsgoutUbxNavGeofenceI2c(<u8 as Raw>::from_raw(raw)),
  260 => CfgVal::MsgoutUbxNavGeofenceSpi(<u8 as Raw>::from_raw(raw)),
  261 => CfgVal::MsgoutUbxNavGeofenceUart1(<u8 as Raw>::from_raw(raw)),
  262 => CfgVal::MsgoutUbxNavGeofenceUart2(<u8 as Raw>::from_raw(raw)),
  263 => CfgVal::MsgoutUbxNavGeofenceUsb(<u8 as Raw>::from_raw(raw)),
  264 => CfgVal::MsgoutUbxNavHpPosEcefI2c(<u8 as Raw>::from_raw(raw)),
  265 => CfgVal::MsgoutUbxNavHpPosEcefSpi(<u8 as Raw>::from_raw(raw)),
  266 => CfgVal::MsgoutUbxNavHpPosEcefUart1(<u8 as Raw>::from_raw(raw)),
  267 => CfgVal::MsgoutUbxNavHpPosEcefUart2(<u8 as Raw>::from_raw(raw)),
  268 => CfgVal::MsgoutUbxNavHpPosEcefUsb(<u8 as Raw>::from_raw(raw)),
  269 => CfgVal::MsgoutUbxNavHpPosllhI2c(<u8 as Raw>::from_raw(raw)),
  270 => CfgVal::MsgoutUbxNavHpPosllhSpi(<u8 as Raw>::from_raw(raw)),
  271 => CfgVal::MsgoutUbxNavHpPosllhUart1(<u8 as Raw>::from_raw(raw)),
  272 => CfgVal::MsgoutUbxNavHpPosllhUart2(<u8 as Raw>::from_raw(raw)),
  273 => CfgVal::MsgoutUbxNavHpPosllhUsb(<u8 as Raw>::from_raw(raw)),
  274 => CfgVal::MsgoutUbxNavOdoI2c(<u8 as Raw>::from_raw(raw)),
  275 => CfgVal::MsgoutUbxNavOdoSpi(<u8 as Raw>::from_raw(raw)),
  276 => CfgVal::MsgoutUbxNavOdoUart1(<u8 as Raw>::from_raw(raw)),
  277 => CfgVal::MsgoutUbxNavOdoUart2(<u8 as Raw>::from_raw(raw)),
  278 => CfgVal::MsgoutUbxNavOdoUsb(<u8 as Raw>::from_raw(raw)),
  279 => CfgVal::MsgoutUbxNavOrbI2c(<u8 as Raw>::from_raw(raw)),
  280 => CfgVal::MsgoutUbxNavOrbSpi(<u8 as Raw>::from_raw(raw)),
  281 => CfgVal::MsgoutUbxNavOrbUart1(<u8 as Raw>::from_raw(raw)),
  282 => CfgVal::MsgoutUbxNavOrbUart2(<u8 as Raw>::from_raw(raw)),
  283 => CfgVal::MsgoutUbxNavOrbUsb(<u8 as Raw>::from_raw(raw)),
  284 => CfgVal::MsgoutUbxNavPosEcefI2c(<u8 as Raw>::from_raw(raw)),
  285 => CfgVal::MsgoutUbxNavPosEcefSpi(<u8 as Raw>::from_raw(raw)),
  286 => CfgVal::MsgoutUbxNavPosEcefUart1(<u8 as Raw>::from_raw(raw)),
  287 => CfgVal::MsgoutUbxNavPosEcefUart2(<u8 as Raw>::from_raw(raw)),
  288 => CfgVal::MsgoutUbxNavPosEcefUsb(<u8 as Raw>::from_raw(raw)),
  289 => CfgVal::MsgoutUbxNavPosLlhI2c(<u8 as Raw>::from_raw(raw)),
  290 => CfgVal::MsgoutUbxNavPosLlhSpi(<u8 as Raw>::from_raw(raw)),
  291 => CfgVal::MsgoutUbxNavPosLlhUart1(<u8 as Raw>::from_raw(raw)),
  292 => CfgVal::MsgoutUbxNavPosLlhUart2(<u8 as Raw>::from_raw(raw)),
  293 => CfgVal::MsgoutUbxNavPosLlhUsb(<u8 as Raw>::from_raw(raw)),
  294 => CfgVal::MsgoutUbxNavPvtI2c(<u8 as Raw>::from_raw(raw)),
  295 => CfgVal::MsgoutUbxNavPvtSpi(<u8 as Raw>::from_raw(raw)),
  296 => CfgVal::MsgoutUbxNavPvtUart1(<u8 as Raw>::from_raw(raw)),
  297 => CfgVal::MsgoutUbxNavPvtUart2(<u8 as Raw>::from_raw(raw)),
  298 => CfgVal::MsgoutUbxNavPvtUsb(<u8 as Raw>::from_raw(raw)),
  299 => CfgVal::MsgoutUbxNavRelposnedI2c(<u8 as Raw>::from_raw(raw)),
  300 => CfgVal::MsgoutUbxNavRelposnedSpi(<u8 as Raw>::from_raw(raw)),
  301 => CfgVal::MsgoutUbxNavRelposnedUart1(<u8 as Raw>::from_raw(raw)),
  302 => CfgVal::MsgoutUbxNavRelposnedUart2(<u8 as Raw>::from_raw(raw)),
  303 => CfgVal::MsgoutUbxNavRelposnedUsb(<u8 as Raw>::from_raw(raw)),
  304 => CfgVal::MsgoutUbxNavSatI2c(<u8 as Raw>::from_raw(raw)),
  305 => CfgVal::MsgoutUbxNavSatSpi(<u8 as Raw>::from_raw(raw)),
  306 => CfgVal::MsgoutUbxNavSatUart1(<u8 as Raw>::from_raw(raw)),
  307 => CfgVal::MsgoutUbxNavSatUart2(<u8 as Raw>::from_raw(raw)),
  308 => CfgVal::MsgoutUbxNavSatUsb(<u8 as Raw>::from_raw(raw)),
  309 => CfgVal::MsgoutUbxNavSigI2c(<u8 as Raw>::from_raw(raw)),
  310 => CfgVal::MsgoutUbxNavSigSpi(<u8 as Raw>::from_raw(raw)),
  311 => CfgVal::MsgoutUbxNavSigUart1(<u8 as Raw>::from_raw(raw)),
  312 => CfgVal::MsgoutUbxNavSigUart2(<u8 as Raw>::from_raw(raw)),
  313 => CfgVal::MsgoutUbxNavSigUsb(<u8 as Raw>::from_raw(raw)),
  314 => CfgVal::MsgoutUbxNavStatusI2c(<u8 as Raw>::from_raw(raw)),
  315 => CfgVal::MsgoutUbxNavStatusSpi(<u8 as Raw>::from_raw(raw)),
  316 => CfgVal::MsgoutUbxNavStatusUart1(<u8 as Raw>::from_raw(raw)),
  317 => CfgVal::MsgoutUbxNavStatusUart2(<u8 as Raw>::from_raw(raw)),
  318 => CfgVal::MsgoutUbxNavStatusUsb(<u8 as Raw>::from_raw(raw)),
  319 => CfgVal::MsgoutUbxNavSvinI2c(<u8 as Raw>::from_raw(raw)),
  320 => CfgVal::MsgoutUbxNavSvinSpi(<u8 as Raw>::from_raw(raw)),
  321 => CfgVal::MsgoutUbxNavSvinUart1(<u8 as Raw>::from_raw(raw)),
  322 => CfgVal::MsgoutUbxNavSvinUart2(<u8 as Raw>::from_raw(raw)),
  323 => CfgVal::MsgoutUbxNavSvinUsb(<u8 as Raw>::from_raw(raw)),
  324 => CfgVal::MsgoutUbxNavTimeBdsI2c(<u8 as Raw>::from_raw(raw)),
  325 => CfgVal::MsgoutUbxNavTimeBdsSpi(<u8 as Raw>::from_raw(raw)),
  326 => CfgVal::MsgoutUbxNavTimeBdsUart1(<u8 as Raw>::from_raw(raw)),
  327 => CfgVal::MsgoutUbxNavTimeBdsUart2(<u8 as Raw>::from_raw(raw)),
  328 => CfgVal::MsgoutUbxNavTimeBdsUsb(<u8 as Raw>::from_raw(raw)),
  329 => CfgVal::MsgoutUbxNavTimeGalI2c(<u8 as Raw>::from_raw(raw)),
  330 => CfgVal::MsgoutUbxNavTimeGalSpi(<u8 as Raw>::from_raw(raw)),
  331 => CfgVal::MsgoutUbxNavTimeGalUart1(<u8 as Raw>::from_raw(raw)),
  332 => CfgVal::MsgoutUbxNavTimeGalUart2(<u8 as Raw>::from_raw(raw)),
  333 => CfgVal::MsgoutUbxNavTimeGalUsb(<u8 as Raw>::from_raw(raw)),
  334 => CfgVal::MsgoutUbxNavTimeGloI2c(<u8 as Raw>::from_raw(raw)),
  335 => CfgVal::MsgoutUbxNavTimeGloSpi(<u8 as Raw>::from_raw(raw)),
  336 => CfgVal::MsgoutUbxNavTimeGloUart1(<u8 as Raw>::from_raw(raw)),
  337 => CfgVal::MsgoutUbxNavTimeGloUart2(<u8 as Raw>::from_raw(raw)),
  338 => CfgVal::MsgoutUbxNavTimeGloUsb(<u8 as Raw>::from_raw(raw)),
  339 => CfgVal::MsgoutUbxNavTimeGpsI2c(<u8 as Raw>::from_raw(raw)),
  340 => CfgVal::MsgoutUbxNavTimeGpsSpi(<u8 as Raw>::from_raw(raw)),
  341 => CfgVal::MsgoutUbxNavTimeGpsUart1(<u8 as Raw>::from_raw(raw)),
  342 => CfgVal::MsgoutUbxNavTimeGpsUart2(<u8 as Raw>::from_raw(raw)),
  343 => CfgVal::MsgoutUbxNavTimeGpsUsb(<u8 as Raw>::from_raw(raw)),
  344 => CfgVal::MsgoutUbxNavTimeLsI2c(<u8 as Raw>::from_raw(raw)),
  345 => CfgVal::MsgoutUbxNavTimeLsSpi(<u8 as Raw>::from_raw(raw)),
  346 => CfgVal::MsgoutUbxNavTimeLsUart1(<u8 as Raw>::from_raw(raw)),
  347 => CfgVal::MsgoutUbxNavTimeLsUart2(<u8 as Raw>::from_raw(raw)),
  348 => CfgVal::MsgoutUbxNavTimeLsUsb(<u8 as Raw>::from_raw(raw)),
  349 => CfgVal::MsgoutUbxNavTimeUtcI2c(<u8 as Raw>::from_raw(raw)),
  350 => CfgVal::MsgoutUbxNavTimeUtcSpi(<u8 as Raw>::from_raw(raw)),
  351 => CfgVal::MsgoutUbxNavTimeUtcUart1(<u8 as Raw>::from_raw(raw)),
  352 => CfgVal::MsgoutUbxNavTimeUtcUart2(<u8 as Raw>::from_raw(raw)),
  353 => CfgVal::MsgoutUbxNavTimeUtcUsb(<u8 as Raw>::from_raw(raw)),
  354 => CfgVal::MsgoutUbxNavVelEcefI2c(<u8 as Raw>::from_raw(raw)),
  355 => CfgVal::MsgoutUbxNavVelEcefSpi(<u8 as Raw>::from_raw(raw)),
  356 => CfgVal::MsgoutUbxNavVelEcefUart1(<u8 as Raw>::from_raw(raw)),
  357 => CfgVal::MsgoutUbxNavVelEcefUart2(<u8 as Raw>::from_raw(raw)),
  358 => CfgVal::MsgoutUbxNavVelEcefUsb(<u8 as Raw>::from_raw(raw)),
  359 => CfgVal::MsgoutUbxNavVelNedI2c(<u8 as Raw>::from_raw(raw)),
  360 => CfgVal::MsgoutUbxNavVelNedSpi(<u8 as Raw>::from_raw(raw)),
  361 => CfgVal::MsgoutUbxNavVelNedUart1(<u8 as Raw>::from_raw(raw)),
  362 => CfgVal::MsgoutUbxNavVelNedUart2(<u8 as Raw>::from_raw(raw)),
  363 => CfgVal::MsgoutUbxNavVelNedUsb(<u8 as Raw>::from_raw(raw)),
  364 => CfgVal::MsgoutUbxRxmMeasxI2c(<u8 as Raw>::from_raw(raw)),
  365 => CfgVal::MsgoutUbxRxmMeasxSpi(<u8 as Raw>::from_raw(raw)),
  366 => CfgVal::MsgoutUbxRxmMeasxUart1(<u8 as Raw>::from_raw(raw)),
  367 => CfgVal::MsgoutUbxRxmMeasxUart2(<u8 as Raw>::from_raw(raw)),
  368 => CfgVal::MsgoutUbxRxmMeasxUsb(<u8 as Raw>::from_raw(raw)),
  369 => CfgVal::MsgoutUbxRxmRawxI2c(<u8 as Raw>::from_raw(raw)),
  370 => CfgVal::MsgoutUbxRxmRawxSpi(<u8 as Raw>::from_raw(raw)),
  371 => CfgVal::MsgoutUbxRxmRawxUart1(<u8 as Raw>::from_raw(raw)),
  372 => CfgVal::MsgoutUbxRxmRawxUart2(<u8 as Raw>::from_raw(raw)),
  373 => CfgVal::MsgoutUbxRxmRawxUsb(<u8 as Raw>::from_raw(raw)),
  374 => CfgVal::MsgoutUbxRxmRlmI2c(<u8 as Raw>::from_raw(raw)),
  375 => CfgVal::MsgoutUbxRxmRlmSpi(<u8 as Raw>::from_raw(raw)),
  376 => CfgVal::MsgoutUbxRxmRlmUart1(<u8 as Raw>::from_raw(raw)),
  377 => CfgVal::MsgoutUbxRxmRlmUart2(<u8 as Raw>::from_raw(raw)),
  378 => CfgVal::MsgoutUbxRxmRlmUsb(<u8 as Raw>::from_raw(raw)),
  379 => CfgVal::MsgoutUbxRxmRtcmI2c(<u8 as Raw>::from_raw(raw)),
  380 => CfgVal::MsgoutUbxRxmRtcmSpi(<u8 as Raw>::from_raw(raw)),
  381 => CfgVal::MsgoutUbxRxmRtcmUart1(<u8 as Raw>::from_raw(raw)),
  382 => CfgVal::MsgoutUbxRxmRtcmUart2(<u8 as Raw>::from_raw(raw)),
  383 => CfgVal::MsgoutUbxRxmRtcmUsb(<u8 as Raw>::from_raw(raw)),
  384 => CfgVal::MsgoutUbxRxmSfrbxI2c(<u8 as Raw>::from_raw(raw)),
  385 => CfgVal::MsgoutUbxRxmSfrbxSpi(<u8 as Raw>::from_raw(raw)),
  386 => CfgVal::MsgoutUbxRxmSfrbxUart1(<u8 as Raw>::from_raw(raw)),
  387 => CfgVal::MsgoutUbxRxmSfrbxUart2(<u8 as Raw>::from_raw(raw)),
  388 => CfgVal::MsgoutUbxRxmSfrbxUsb(<u8 as Raw>::from_raw(raw)),
  389 => CfgVal::MsgoutUbxTimTm2I2c(<u8 as Raw>::from_raw(raw)),
  390 => CfgVal::MsgoutUbxTimTm2Spi(<u8 as Raw>::from_raw(raw)),
  391 => CfgVal::MsgoutUbxTimTm2Uart1(<u8 as Raw>::from_raw(raw)),
  392 => CfgVal::MsgoutUbxTimTm2Uart2(<u8 as Raw>::from_raw(raw)),
  393 => CfgVal::MsgoutUbxTimTm2Usb(<u8 as Raw>::from_raw(raw)),
  394 => CfgVal::MsgoutUbxTimTpI2c(<u8 as Raw>::from_raw(raw)),
  395 => CfgVal::MsgoutUbxTimTpSpi(<u8 as Raw>::from_raw(raw)),
  396 => CfgVal::MsgoutUbxTimTpUart1(<u8 as Raw>::from_raw(raw)),
  397 => CfgVal::MsgoutUbxTimTpUart2(<u8 as Raw>::from_raw(raw)),
  398 => CfgVal::MsgoutUbxTimTpUsb(<u8 as Raw>::from_raw(raw)),
  399 => CfgVal::MsgoutUbxTimVrfyI2c(<u8 as Raw>::from_raw(raw)),
  400 => CfgVal::MsgoutUbxTimVrfySpi(<u8 as Raw>::from_raw(raw)),
  401 => CfgVal::MsgoutUbxTimVrfyUart1(<u8 as Raw>::from_raw(raw)),
  402 => CfgVal::MsgoutUbxTimVrfyUart2(<u8 as Raw>::from_raw(raw)),
  403 => CfgVal::MsgoutUbxTimVrfyUsb(<u8 as Raw>::from_raw(raw)),
  404 => CfgVal::SignalGpsEna(<bool as Raw>::from_raw(raw)),
  405 => CfgVal::SignalGpsL1caEna(<bool as Raw>::from_raw(raw)),
  406 => CfgVal::SignalGpsL2cEna(<bool as Raw>::from_raw(raw)),
  407 => CfgVal::SignalGalEna(<bool as Raw>::from_raw(raw)),
  408 => CfgVal::SignalGalE1Ena(<bool as Raw>::from_raw(raw)),
  409 => CfgVal::SignalGalE5bEna(<bool as Raw>::from_raw(raw)),
  410 => CfgVal::SignalBdsEna(<bool as Raw>::from_raw(raw)),
  411 => CfgVal::SignalBdsB1Ena(<bool as Raw>::from_raw(raw)),
  412 => CfgVal::SignalBdsB2Ena(<bool as Raw>::from_raw(raw)),
  413 => CfgVal::SignalQzssEna(<bool as Raw>::from_raw(raw)),
  414 => CfgVal::SignalQzssL1caEna(<bool as Raw>::from_raw(raw)),
  415 => CfgVal::SignalQzssL2cEna(<bool as Raw>::from_raw(raw)),
  416 => CfgVal::SignalGloEna(<bool as Raw>::from_raw(raw)),
  417 => CfgVal::SignalGloL1Ena(<bool as Raw>::from_raw(raw)),
  418 => CfgVal::SignalGLoL2Ena(<bool as Raw>::from_raw(raw)),
  419 => CfgVal::TpPulseDef(<TpPulse as Raw>::from_raw(raw)),
  420 => CfgVal::TpPulseLengthDef(<TpPulseLength as Raw>::from_raw(raw)),
  421 => CfgVal::TpAntCableDelay(<i16 as Raw>::from_raw(raw)),
  422 => CfgVal::TpPeriodTp1(<u32 as Raw>::from_raw(raw)),
  423 => CfgVal::TpPeriodLockTp1(<u32 as Raw>::from_raw(raw)),
  424 => CfgVal::TpFreqTp1(<u32 as Raw>::from_raw(raw)),
  425 => CfgVal::TpFreqLockTp1(<u32 as Raw>::from_raw(raw)),
  426 => CfgVal::TpLenTp1(<u32 as Raw>::from_raw(raw)),
  427 => CfgVal::TpLenLockTp1(<u32 as Raw>::from_raw(raw)),
  428 => CfgVal::TpTp1Ena(<bool as Raw>::from_raw(raw)),
  429 => CfgVal::TpSyncGnssTp1(<bool as Raw>::from_raw(raw)),
  430 => CfgVal::TpUseLockedTp1(<bool as Raw>::from_raw(raw)),
  431 => CfgVal::TpAlignToTowTp1(<bool as Raw>::from_raw(raw)),
  432 => CfgVal::TpPolTp1(<bool as Raw>::from_raw(raw)),
  433 => CfgVal::TpTimegridTp1(<AlignmentToReferenceTime as Raw>::from_raw(raw)),
  _ => panic!("harness: key index") } }
pub fn unmake(v: &CfgVal) -> Option<(usize, u64)> { Some(match v {
  CfgVal::Uart1Baudrate(x) => (0, Raw::to_raw(x)),
  CfgVal::Uart1StopBits(x) => (1, Raw::to_raw(x)),
  CfgVal::Uart1DataBits(x) => (2, Raw::to_raw(x)),
  CfgVal::Uart1Parity(x) => (3, Raw::to_raw(x)),
  CfgVal::Uart1Enabled(x) => (4, Raw::to_raw(x)),
  CfgVal::Uart1InProtUbx(x) => (5, Raw::to_raw(x)),
  CfgVal::Uart1InProtNmea(x) => (6, Raw::to_raw(x)),
  CfgVal::Uart1InProtRtcm3x(x) => (7, Raw::to_raw(x)),
  CfgVal::Uart1OutProtUbx(x) => (8, Raw::to_raw(x)),
  CfgVal::Uart1OutProtNmea(x) => (9, Raw::to_raw(x)),
  CfgVal::Uart1OutProtRtcm3x(x) => (10, Raw::to_raw(x)),
  CfgVal::Uart2Baudrate(x) => (11, Raw::to_raw(x)),
  CfgVal::Uart2StopBits(x) => (12, Raw::to_raw(x)),
  CfgVal::Uart2DataBits(x) => (13, Raw::to_raw(x)),
  CfgVal::Uart2Parity(x) => (14, Raw::to_raw(x)),
  CfgVal::Uart2Enabled(x) => (15, Raw::to_raw(x)),
  CfgVal::Uart2Remap(x) => (16, Raw::to_raw(x)),
  CfgVal::Uart2InProtUbx(x) => (17, Raw::to_raw(x)),
  CfgVal::Uart2InProtNmea(x) => (18, Raw::to_raw(x)),
  CfgVal::Uart2InProtRtcm3x(x) => (19, Raw::to_raw(x)),
  CfgVal::Uart2OutProtUbx(x) => (20, Raw::to_raw(x)),
  CfgVal::Uart2OutProtNmea(x) => (21, Raw::to_raw(x)),
  CfgVal::Uart2OutProtRtcm3x(x) => (22, Raw::to_raw(x)),
  CfgVal::UsbEnabled(x) => (23, Raw::to_raw(x)),
  CfgVal::UsbSelfpow(x) => (24, Raw::to_raw(x)),
  CfgVal::UsbVendorId(x) => (25, Raw::to_raw(x)),
  CfgVal::UsbProductId(x) => (26, Raw::to_raw(x)),
  CfgVal::UsbPower(x) => (27, Raw::to_raw(x)),
  CfgVal::UsbVendorStr0(x) => (28, Raw::to_raw(x)),
  CfgVal::UsbVendorStr1(x) => (29, Raw::to_raw(x)),
  CfgVal::UsbVendorStr2(x) => (30, Raw::to_raw(x)),
  CfgVal::UsbVendorStr3(x) => (31, Raw::to_raw(x)),
  CfgVal::UsbProductStr0(x) => (32, Raw::to_raw(x)),
  CfgVal::UsbProductStr1(x) => (33, Raw::to_raw(x)),
  CfgVal::UsbProductStr2(x) => (34, Raw::to_raw(x)),
  CfgVal::UsbProductStr3(x) => (35, Raw::to_raw(x)),
  CfgVal::UsbSerialNoStr0(x) => (36, Raw::to_raw(x)),
  CfgVal::UsbSerialNoStr1(x) => (37, Raw::to_raw(x)),
  CfgVal::UsbSerialNoStr2(x) => (38, Raw::to_raw(x)),
  CfgVal::UsbSerialNoStr3(x) => (39, Raw::to_raw(x)),
  CfgVal::UsbinprotUbx(x) => (40, Raw::to_raw(x)),
  CfgVal::UsbinprotNmea(x) => (41, Raw::to_raw(x)),
  CfgVal::UsbinprotRtcm3X(x) => (42, Raw::to_raw(x)),
  CfgVal::UsbOutProtUbx(x) => (43, Raw::to_raw(x)),
  CfgVal::UsbOutProtNmea(x) => (44, Raw::to_raw(x)),
  CfgVal::UsbOutProtRtcm3x(x) => (45, Raw::to_raw(x)),
  CfgVal::InfmsgUbxI2c(x) => (46, Raw::to_raw(x)),
  CfgVal::InfmsgUbxUart1(x) => (47, Raw::to_raw(x)),
  CfgVal::InfmsgUbxUart2(x) => (48, Raw::to_raw(x)),
  CfgVal::InfmsgUbxUsb(x) => (49, Raw::to_raw(x)),
  CfgVal::InfmsgUbxSpi(x) => (50, Raw::to_raw(x)),
  CfgVal::InfmsgNmeaI2c(x) => (51, Raw::to_raw(x)),
  CfgVal::InfmsgNmeaUart1(x) => (52, Raw::to_raw(x)),
  CfgVal::InfmsgNmeaUart2(x) => (53, Raw::to_raw(x)),
  CfgVal::InfmsgNmeaUsb(x) => (54, Raw::to_raw(x)),
  CfgVal::InfmsgNmeaSpi(x) => (55, Raw::to_raw(x)),
  CfgVal::RateMeas(x) => (56, Raw::to_raw(x)),
  CfgVal::RateNav(x) => (57, Raw::to_raw(x)),
  CfgVal::RateTimeref(x) => (58, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdDtmI2c(x) => (59, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdDtmSpi(x) => (60, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdDtmUart1(x) => (61, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdDtmUart2(x) => (62, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdDtmUsb(x) => (63, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGbsI2c(x) => (64, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGbsSpi(x) => (65, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGbsUart1(x) => (66, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGbsUart2(x) => (67, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGbsUsb(x) => (68, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGgaI2c(x) => (69, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGgaSpi(x) => (70, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGgaUart1(x) => (71, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGgaUart2(x) => (72, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGgaUsb(x) => (73, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGllI2c(x) => (74, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGllSpi(x) => (75, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGllUart1(x) => (76, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGllUart2(x) => (77, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGllUsb(x) => (78, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGnsI2c(x) => (79, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGnsSpi(x) => (80, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGnsUart1(x) => (81, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGnsUart2(x) => (82, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGnsUsb(x) => (83, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGrsI2c(x) => (84, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGrsSpi(x) => (85, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGrsUart1(x) => (86, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGrsUart2(x) => (87, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGrsUsb(x) => (88, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsaI2c(x) => (89, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsaSpi(x) => (90, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsaUart1(x) => (91, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsaUart2(x) => (92, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsaUsb(x) => (93, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGstI2c(x) => (94, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGstSpi(x) => (95, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGstUart1(x) => (96, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGstUart2(x) => (97, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGstUsb(x) => (98, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsvI2c(x) => (99, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsvSpi(x) => (100, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsvUart1(x) => (101, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsvUart2(x) => (102, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdGsvUsb(x) => (103, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdRmcI2c(x) => (104, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdRmcSpi(x) => (105, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdRmcUart1(x) => (106, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdRmcUart2(x) => (107, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdRmcUsb(x) => (108, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVlwI2c(x) => (109, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVlwSpi(x) => (110, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVlwUart1(x) => (111, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVlwUart2(x) => (112, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVlwUsb(x) => (113, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVtgI2c(x) => (114, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVtgSpi(x) => (115, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVtgUart1(x) => (116, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVtgUart2(x) => (117, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdVtgUsb(x) => (118, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdZdaI2c(x) => (119, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdZdaSpi(x) => (120, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdZdaUart1(x) => (121, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdZdaUart2(x) => (122, Raw::to_raw(x)),
  CfgVal::MsgoutNmeaIdZdaUsb(x) => (123, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolypI2c(x) => (124, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolypSpi(x) => (125, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolypUart1(x) => (126, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolypUart2(x) => (127, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolypUsb(x) => (128, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolysI2c(x) => (129, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolysSpi(x) => (130, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolysUart1(x) => (131, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolysUart2(x) => (132, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolysUsb(x) => (133, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolytI2c(x) => (134, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolytSpi(x) => (135, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolytUart1(x) => (136, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolytUart2(x) => (137, Raw::to_raw(x)),
  CfgVal::MsgoutPubxIdPolytUsb(x) => (138, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1005I2c(x) => (139, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1005Spi(x) => (140, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1005Uart1(x) => (141, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1005Uart2(x) => (142, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1005Usb(x) => (143, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1074I2c(x) => (144, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1074Spi(x) => (145, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1074Uart1(x) => (146, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1074Uart2(x) => (147, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1074Usb(x) => (148, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1077I2c(x) => (149, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1077Spi(x) => (150, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1077Uart1(x) => (151, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1077Uart2(x) => (152, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1077Usb(x) => (153, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1084I2c(x) => (154, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1084Spi(x) => (155, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1084Uart1(x) => (156, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1084Uart2(x) => (157, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1084Usb(x) => (158, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1087I2c(x) => (159, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1087Spi(x) => (160, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1087Uart1(x) => (161, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1087Uart2(x) => (162, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1087Usb(x) => (163, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1094I2c(x) => (164, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1094Spi(x) => (165, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1094Uart1(x) => (166, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1094Uart2(x) => (167, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1094Usb(x) => (168, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1097I2c(x) => (169, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1097Spi(x) => (170, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1097Uart1(x) => (171, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1097Uart2(x) => (172, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1097Usb(x) => (173, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1124I2c(x) => (174, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1124Spi(x) => (175, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1124Uart1(x) => (176, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1124Uart2(x) => (177, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1124Usb(x) => (178, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1127I2c(x) => (179, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1127Spi(x) => (180, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1127Uart1(x) => (181, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1127Uart2(x) => (182, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1127Usb(x) => (183, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1230I2c(x) => (184, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1230Spi(x) => (185, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1230Uart1(x) => (186, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1230Uart2(x) => (187, Raw::to_raw(x)),
  CfgVal::MsgoutRtcm3xType1230Usb(x) => (188, Raw::to_raw(x)),
  CfgVal::MsgoutUbxLogInfoI2c(x) => (189, Raw::to_raw(x)),
  CfgVal::MsgoutUbxLogInfoSpi(x) => (190, Raw::to_raw(x)),
  CfgVal::MsgoutUbxLogInfoUart1(x) => (191, Raw::to_raw(x)),
  CfgVal::MsgoutUbxLogInfoUart2(x) => (192, Raw::to_raw(x)),
  CfgVal::MsgoutUbxLogInfoUsb(x) => (193, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonCommsI2c(x) => (194, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonCommsSpi(x) => (195, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonCommsUart1(x) => (196, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonCommsUart2(x) => (197, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonCommsUsb(x) => (198, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw2I2c(x) => (199, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw2Spi(x) => (200, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw2Uart1(x) => (201, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw2Uart2(x) => (202, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw2Usb(x) => (203, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw3I2c(x) => (204, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw3Spi(x) => (205, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw3Uart1(x) => (206, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw3Uart2(x) => (207, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHw3Usb(x) => (208, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHwI2c(x) => (209, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHwSpi(x) => (210, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHwUart1(x) => (211, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHwUart2(x) => (212, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonHwUsb(x) => (213, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonIoI2c(x) => (214, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonIoSpi(x) => (215, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonIoUart1(x) => (216, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonIoUart2(x) => (217, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonIoUsb(x) => (218, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonMsgPpI2c(x) => (219, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonMsgPpSpi(x) => (220, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonMsgPpUart1(x) => (221, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonMsgPpUart2(x) => (222, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonMsgPpUsb(x) => (223, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRfI2c(x) => (224, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRfSpi(x) => (225, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRfUart1(x) => (226, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRfUart2(x) => (227, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRfUsb(x) => (228, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxbufI2c(x) => (229, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxbufSpi(x) => (230, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxbufUart1(x) => (231, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxbufUart2(x) => (232, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxbufUsb(x) => (233, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxrI2c(x) => (234, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxrSpi(x) => (235, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxrUart1(x) => (236, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxrUart2(x) => (237, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonRxrUsb(x) => (238, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonTxbufI2c(x) => (239, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonTxbufSpi(x) => (240, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonTxbufUart1(x) => (241, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonTxbufUart2(x) => (242, Raw::to_raw(x)),
  CfgVal::MsgoutUbxMonTxbufUsb(x) => (243, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavClockI2c(x) => (244, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavClockSpi(x) => (245, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavClockUart1(x) => (246, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavClockUart2(x) => (247, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavClockUsb(x) => (248, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavDopI2c(x) => (249, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavDopSpi(x) => (250, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavDopUart1(x) => (251, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavDopUart2(x) => (252, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavDopUsb(x) => (253, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavEoeI2c(x) => (254, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavEoeSpi(x) => (255, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavEoeUart1(x) => (256, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavEoeUart2(x) => (257, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavEoeUsb(x) => (258, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavGeofenceI2c(x) => (259, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavGeofenceSpi(x) => (260, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavGeofenceUart1(x) => (261, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavGeofenceUart2(x) => (262, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavGeofenceUsb(x) => (263, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosEcefI2c(x) => (264, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosEcefSpi(x) => (265, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosEcefUart1(x) => (266, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosEcefUart2(x) => (267, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosEcefUsb(x) => (268, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosllhI2c(x) => (269, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosllhSpi(x) => (270, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosllhUart1(x) => (271, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosllhUart2(x) => (272, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavHpPosllhUsb(x) => (273, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOdoI2c(x) => (274, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOdoSpi(x) => (275, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOdoUart1(x) => (276, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOdoUart2(x) => (277, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOdoUsb(x) => (278, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOrbI2c(x) => (279, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOrbSpi(x) => (280, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOrbUart1(x) => (281, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOrbUart2(x) => (282, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavOrbUsb(x) => (283, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosEcefI2c(x) => (284, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosEcefSpi(x) => (285, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosEcefUart1(x) => (286, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosEcefUart2(x) => (287, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosEcefUsb(x) => (288, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosLlhI2c(x) => (289, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosLlhSpi(x) => (290, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosLlhUart1(x) => (291, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosLlhUart2(x) => (292, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPosLlhUsb(x) => (293, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPvtI2c(x) => (294, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPvtSpi(x) => (295, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPvtUart1(x) => (296, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPvtUart2(x) => (297, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavPvtUsb(x) => (298, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavRelposnedI2c(x) => (299, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavRelposnedSpi(x) => (300, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavRelposnedUart1(x) => (301, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavRelposnedUart2(x) => (302, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavRelposnedUsb(x) => (303, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSatI2c(x) => (304, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSatSpi(x) => (305, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSatUart1(x) => (306, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSatUart2(x) => (307, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSatUsb(x) => (308, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSigI2c(x) => (309, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSigSpi(x) => (310, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSigUart1(x) => (311, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSigUart2(x) => (312, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSigUsb(x) => (313, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavStatusI2c(x) => (314, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavStatusSpi(x) => (315, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavStatusUart1(x) => (316, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavStatusUart2(x) => (317, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavStatusUsb(x) => (318, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSvinI2c(x) => (319, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSvinSpi(x) => (320, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSvinUart1(x) => (321, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSvinUart2(x) => (322, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavSvinUsb(x) => (323, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeBdsI2c(x) => (324, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeBdsSpi(x) => (325, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeBdsUart1(x) => (326, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeBdsUart2(x) => (327, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeBdsUsb(x) => (328, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGalI2c(x) => (329, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGalSpi(x) => (330, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGalUart1(x) => (331, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGalUart2(x) => (332, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGalUsb(x) => (333, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGloI2c(x) => (334, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGloSpi(x) => (335, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGloUart1(x) => (336, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGloUart2(x) => (337, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGloUsb(x) => (338, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGpsI2c(x) => (339, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGpsSpi(x) => (340, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGpsUart1(x) => (341, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGpsUart2(x) => (342, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeGpsUsb(x) => (343, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeLsI2c(x) => (344, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeLsSpi(x) => (345, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeLsUart1(x) => (346, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeLsUart2(x) => (347, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeLsUsb(x) => (348, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeUtcI2c(x) => (349, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeUtcSpi(x) => (350, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeUtcUart1(x) => (351, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeUtcUart2(x) => (352, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavTimeUtcUsb(x) => (353, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelEcefI2c(x) => (354, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelEcefSpi(x) => (355, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelEcefUart1(x) => (356, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelEcefUart2(x) => (357, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelEcefUsb(x) => (358, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelNedI2c(x) => (359, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelNedSpi(x) => (360, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelNedUart1(x) => (361, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelNedUart2(x) => (362, Raw::to_raw(x)),
  CfgVal::MsgoutUbxNavVelNedUsb(x) => (363, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmMeasxI2c(x) => (364, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmMeasxSpi(x) => (365, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmMeasxUart1(x) => (366, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmMeasxUart2(x) => (367, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmMeasxUsb(x) => (368, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRawxI2c(x) => (369, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRawxSpi(x) => (370, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRawxUart1(x) => (371, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRawxUart2(x) => (372, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRawxUsb(x) => (373, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRlmI2c(x) => (374, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRlmSpi(x) => (375, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRlmUart1(x) => (376, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRlmUart2(x) => (377, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRlmUsb(x) => (378, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRtcmI2c(x) => (379, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRtcmSpi(x) => (380, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRtcmUart1(x) => (381, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRtcmUart2(x) => (382, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmRtcmUsb(x) => (383, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmSfrbxI2c(x) => (384, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmSfrbxSpi(x) => (385, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmSfrbxUart1(x) => (386, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmSfrbxUart2(x) => (387, Raw::to_raw(x)),
  CfgVal::MsgoutUbxRxmSfrbxUsb(x) => (388, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTm2I2c(x) => (389, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTm2Spi(x) => (390, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTm2Uart1(x) => (391, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTm2Uart2(x) => (392, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTm2Usb(x) => (393, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTpI2c(x) => (394, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTpSpi(x) => (395, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTpUart1(x) => (396, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTpUart2(x) => (397, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimTpUsb(x) => (398, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimVrfyI2c(x) => (399, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimVrfySpi(x) => (400, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimVrfyUart1(x) => (401, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimVrfyUart2(x) => (402, Raw::to_raw(x)),
  CfgVal::MsgoutUbxTimVrfyUsb(x) => (403, Raw::to_raw(x)),
  CfgVal::SignalGpsEna(x) => (404, Raw::to_raw(x)),
  CfgVal::SignalGpsL1caEna(x) => (405, Raw::to_raw(x)),
  CfgVal::SignalGpsL2cEna(x) => (406, Raw::to_raw(x)),
  CfgVal::SignalGalEna(x) => (407, Raw::to_raw(x)),
  CfgVal::SignalGalE1Ena(x) => (408, Raw::to_raw(x)),
  CfgVal::SignalGalE5bEna(x) => (409, Raw::to_raw(x)),
  CfgVal::SignalBdsEna(x) => (410, Raw::to_raw(x)),
  CfgVal::SignalBdsB1Ena(x) => (411, Raw::to_raw(x)),
  CfgVal::SignalBdsB2Ena(x) => (412, Raw::to_raw(x)),
  CfgVal::SignalQzssEna(x) => (413, Raw::to_raw(x)),
  CfgVal::SignalQzssL1caEna(x) => (414, Raw::to_raw(x)),
  CfgVal::SignalQzssL2cEna(x) => (415, Raw::to_raw(x)),
  CfgVal::SignalGloEna(x) => (416, Raw::to_raw(x)),
  CfgVal::SignalGloL1Ena(x) => (417, Raw::to_raw(x)),
  CfgVal::SignalGLoL2Ena(x) => (418, Raw::to_raw(x)),
  CfgVal::TpPulseDef(x) => (419, Raw::to_raw(x)),
  CfgVal::TpPulseLengthDef(x) => (420, Raw::to_raw(x)),
  CfgVal::TpAntCableDelay(x) => (421, Raw::to_raw(x)),
  CfgVal::TpPeriodTp1(x) => (422, Raw::to_raw(x)),
  CfgVal::TpPeriodLockTp1(x) => (423, Raw::to_raw(x)),
  CfgVal::TpFreqTp1(x) => (424, Raw::to_raw(x)),
  CfgVal::TpFreqLockTp1(x) => (425, Raw::to_raw(x)),
  CfgVal::TpLenTp1(x) => (426, Raw::to_raw(x)),
  CfgVal::TpLenLockTp1(x) => (427, Raw::to_raw(x)),
  CfgVal::TpTp1Ena(x) => (428, Raw::to_raw(x)),
  CfgVal::TpSyncGnssTp1(x) => (429, Raw::to_raw(x)),
  CfgVal::TpUseLockedTp1(x) => (430, Raw::to_raw(x)),
  CfgVal::TpAlignToTowTp1(x) => (431, Raw::to_raw(x)),
  CfgVal::TpPolTp1(x) => (432, Raw::to_raw(x)),
  CfgVal::TpTimegridTp1(x) => (433, Raw::to_raw(x)),
  _ => return None }) }
